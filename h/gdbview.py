# Run by gdb inside each inspected process: prints every field of the stopped
# view as the repository's pretty printers show it, in a form free of wording.
import gdb, os, re, sys

gdb.execute('set pagination off')
gdb.execute('set confirm off')
gdb.execute('set width 0')
gdb.execute('set print elements 0')
gdb.execute('set print repeats 0')
gdb.execute('set print max-depth -1')
gdb.execute('set print frame-arguments none')
gdb.execute('set print address off')
gdb.execute('handle SIGPROF nostop noprint pass')
FMT = dict(max_elements=0, repeat_threshold=0, max_depth=-1, address=False)

out = open(os.environ['KV_VIEW_OUT'], 'w')
def emit(*words):
    out.write('\t'.join(str(w) for w in words) + '\n'); out.flush()

def load():
    if os.environ['KV_LOAD'] == 'source': gdb.execute('source %s' % os.environ['KV_TYPES']); return
    # as gdb loads the script that goes with a program (<program>-gdb.py): on behalf of its object file
    gdb.current_objfile = lambda: gdb.objfiles()[0]
    gdb.execute('source %s' % os.environ['KV_TYPES'])

def content(shown):
    """ bytes of the string a printer gives to gdb, which has its own ways of quoting them """
    if isinstance(shown, str): return shown.encode('utf-8', 'surrogateescape')
    if isinstance(shown, gdb.Value): return content(shown.string(errors='surrogateescape'))
    mem = gdb.selected_inferior()
    if shown.length >= 0: return mem.read_memory(shown.address, shown.length).tobytes() if shown.length else b''
    res = bytearray(); at = shown.address
    while True:
        c = mem.read_memory(at, 1).tobytes(); at += 1
        if c == b'\0': return bytes(res)
        res += c

def scalar(v):
    t = v.type.strip_typedefs()
    if t.code in (gdb.TYPE_CODE_REF, gdb.TYPE_CODE_RVALUE_REF): v = v.referenced_value(); t = v.type.strip_typedefs()
    if t.code == gdb.TYPE_CODE_FLT: return 'f%.9g' % float(v)
    if t.code in (gdb.TYPE_CODE_INT, gdb.TYPE_CODE_BOOL, gdb.TYPE_CODE_CHAR, gdb.TYPE_CODE_ENUM): return 'i%d' % int(v)
    return None

def canon(v):
    try:
        viz = gdb.default_visualizer(v)
        if viz is None:
            s = scalar(v)
            return s if s is not None else 'raw:' + v.format_string(**FMT)
        hint = viz.display_hint() if hasattr(viz, 'display_hint') else None
        if hasattr(viz, 'children'):
            head = viz.to_string()
            counts = re.findall(r'\[(\d+)\]', str(head))
            tail = re.findall(r'(\d+)\D*$', str(head))
            kids = [(name, canon(item)) for name, item in viz.children()]
            names = [n for n, _ in kids]
            if len(set(names)) != len(names): return 'two children of one name: %s' % names
            if hint == 'map' and kids and kids[0][1][0] == 'i' and not re.search(r'\{\[%s\] = ' % re.escape(kids[0][1][1:]), v.format_string(**FMT)): return 'not shown as keys and values: ' + v.format_string(**FMT)[:200]
            if hint != 'map' and str(v.type.strip_typedefs().unqualified()).startswith('Map<'): return 'not shown as a map'
            return '%s;%s{%s}' % (counts[-1] if counts else '?', tail[-1] if tail else '?', ','.join(c for _, c in kids))
        if hint == 'string':
            text = v.format_string(**FMT); b = content(viz.to_string())
            plain = b.isascii() and all(32 <= c < 127 and c not in b'"\\' for c in b)
            if plain and text != '"%s"' % b.decode(): return 'badly quoted: ' + text
            return 's' + b.hex()
        text = v.format_string(**FMT)
        return 'text:' + text
    except Exception as e:
        return 'error: %s: %s' % (type(e).__name__, e)

def numbers(text):
    return ' '.join('%.17g' % float(x) for x in re.findall(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)', text))

try:
    load()
    gdb.Breakpoint('kvStop')
    gdb.execute('run', to_string=True)
    emit('started')
    stops = 0
    while True:
        try: frame = gdb.newest_frame()
        except gdb.error: break
        if frame.name() is None or 'kvStop' not in frame.name(): emit('stopped', frame.name()); break
        view = frame.read_var('view')
        if view.type.code in (gdb.TYPE_CODE_REF, gdb.TYPE_CODE_RVALUE_REF): view = view.referenced_value()
        emit('stop', stops)
        for f in view.type.fields():
            v = view[f.name]; kind = f.name.split('_')[0]
            if kind == 'vec':
                text = v.format_string(**FMT); m = re.match(r'^[^{]*?(\d)\{([^{}]*)\}$', text)
                emit('field', f.name, '%s;%s' % (m.group(1), numbers(m.group(2))) if m else 'text:' + text)
            elif kind == 'quat': emit('field', f.name, numbers(v.format_string(**FMT)))
            elif kind in ('same', 'as'): emit('field', f.name, 't' + v.format_string(**FMT).encode('utf-8').hex())
            else: emit('field', f.name, canon(v))
        whole = view.format_string(**FMT)
        bad = re.search(r'<error[^>]*>|Python Exception[^\n]*', whole)
        emit('whole', bad.group(0) if bad else 'fine')
        stops += 1
        gdb.execute('continue', to_string=True)
    emit('done', stops)
except Exception as e:
    emit('failed', '%s: %s' % (type(e).__name__, e))
out.close()
try: gdb.execute('kill')
except gdb.error: pass
gdb.execute('quit 0')
