// Reference regular expressions: syntax trees, their pattern text, their
// language decided over sets of positions, and random members of it.
#pragma once
#include "kv.h"
#include <string>
#include <vector>
#include <memory>
#include <bitset>

namespace rx
{
	typedef unsigned char byte; typedef kv::u64 u64;
	enum Kind { Lit, Any, Set, Begin, End, Boundary, NoBoundary, Cat, Alt, Group, Quant, Look, NotLook };
	struct Node; typedef std::shared_ptr<Node> P;
	struct Node { Kind k; byte c = 0; bool in[256] = {}; std::string text; std::vector<P> kids; int min = 0, max = 0; };
	inline P make(Kind k) { P n = std::make_shared<Node>(); n->k = k; return n; }

	inline bool space(byte c) { return c == ' ' || (c >= 9 && c <= 13); }
	inline bool digit(byte c) { return c >= '0' && c <= '9'; }
	inline bool word(byte c) { return digit(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
	inline bool inEscape(char e, byte c) { switch (e) { case 'd': return digit(c); case 'D': return !digit(c); case 's': return space(c); case 'S': return !space(c); case 'w': return word(c); default: return !word(c); } }

	/// Positions after the node, starting from any of the given positions
	template<typename B> inline B match(const Node & n, const std::string & in, B at)
	{
		const size_t len = in.size(); B out;
		auto each = [&](auto fn) { for (size_t i = 0; i <= len; ++i) if (at[i]) fn(i); };
		if (at.none()) return out;
		switch (n.k)
		{
			case Lit: each([&](size_t i) { if (i < len && (byte)in[i] == n.c) out.set(i + 1); }); return out;
			case Any: each([&](size_t i) { if (i < len) out.set(i + 1); }); return out;
			case Set: each([&](size_t i) { if (i < len && n.in[(byte)in[i]]) out.set(i + 1); }); return out;
			case Begin: out[0] = at[0]; return out;
			case End: out[len] = at[len]; return out;
			case Boundary: case NoBoundary: each([&](size_t i) { const bool b = i > 0 && word(in[i - 1]), a = i < len && word(in[i]); if (n.k == Boundary ? a != b : a && b) out.set(i); }); return out;
			case Cat: for (const P & k : n.kids) at = match(*k, in, at); return at;
			case Alt: for (const P & k : n.kids) out |= match(*k, in, at); return out;
			case Group: return match(*n.kids[0], in, at);
			case Look: case NotLook: each([&](size_t i) { B one; one.set(i); if (match(*n.kids[0], in, one).any() == (n.k == Look)) out.set(i); }); return out;
			default: break;
		}
		for (int i = 0; i < n.min && at.any(); ++i) at = match(*n.kids[0], in, at);
		out = at;
		for (int i = n.min; at.any() && (n.max < 0 || i < n.max); ++i) { at = match(*n.kids[0], in, at) & ~out; out |= at; }
		return out;
	}
	static const size_t LONG = 500;
	inline bool accepts(const Node & n, const std::string & in)
	{
		if (in.size() < 63) { std::bitset<64> at; at.set(0); return match(n, in, at)[in.size()]; }
		std::bitset<LONG + 2> at; at.set(0); return match(n, in, at)[in.size()];
	}

	inline P copy(const Node & n) { P o = std::make_shared<Node>(n); for (P & k : o->kids) k = copy(*k); return o; }
	/// Changes one literal of a pattern for a letter, mostly for itself in the other case
	inline bool nudge(Node & n, kv::Rng & R)
	{
		std::vector<Node *> lits, todo{&n}; while (!todo.empty()) { Node * q = todo.back(); todo.pop_back(); if (q->k == Lit) lits.push_back(q); for (P & k : q->kids) todo.push_back(k.get()); }
		if (lits.empty()) return false; Node & q = *lits[R.below(lits.size())]; const bool letter = (q.c >= 'a' && q.c <= 'z') || (q.c >= 'A' && q.c <= 'Z'); q.c = letter && R.chance(2, 3) ? q.c ^ 32 : 'a' + R.below(26); return true;
	}

	/// Number of states the pattern unfolds to, about
	inline u64 weight(const Node & n)
	{
		u64 w = 1; for (const P & k : n.kids) w += weight(*k);
		if (n.k == Quant) w *= n.max > 0 ? n.max : n.min > 0 ? n.min : 1;
		return w;
	}

	/// Random member, if assertions allow
	inline void member(const Node & n, kv::Rng & R, std::string & s, size_t limit = 60)
	{
		if (s.size() > limit) return;
		switch (n.k)
		{
			case Lit: s += (char)n.c; break;
			case Any: s += R.chance(1, 2) ? 'a' : (char)R.range(1, 255); break;
			case Set: { int c = (int)R.range(1, 255); for (int i = 0; i < 255; ++i, c = c % 255 + 1) if (n.in[c]) { s += (char)c; break; } break; }
			case Cat: for (const P & k : n.kids) member(*k, R, s, limit); break;
			case Alt: member(*n.kids[R.below(n.kids.size())], R, s, limit); break;
			case Group: member(*n.kids[0], R, s, limit); break;
			case Quant: { const int k = n.max < 0 ? n.min + (int)R.below(3) : (int)R.range(n.min, n.max); for (int i = 0; i < k && s.size() <= limit; ++i) member(*n.kids[0], R, s, limit); break; }
			default: break;
		}
	}

	inline bool meta(byte c) { return strchr("\\^$.*+?()[]{}|", c) != 0 && c; }
	inline void literal(std::string & out, byte c, kv::Rng & R) { if (meta(c) || (ispunct(c) && c != '_' && R.chance(1, 8))) out += '\\'; out += (char)c; }

	/// Pattern text of the node
	inline void print(const Node & n, kv::Rng & R, std::string & out)
	{
		switch (n.k)
		{
			case Lit: literal(out, n.c, R); break;
			case Any: out += n.text.empty() ? "." : n.text; break;
			case Set: out += n.text; break;
			case Begin: out += '^'; break;
			case End: out += '$'; break;
			case Boundary: out += "\\b"; break;
			case NoBoundary: out += "\\B"; break;
			case Cat: for (const P & k : n.kids) print(*k, R, out); break;
			case Alt: for (size_t i = 0; i < n.kids.size(); ++i) { if (i) out += '|'; print(*n.kids[i], R, out); } break;
			case Group: out += '('; print(*n.kids[0], R, out); out += ')'; break;
			case Quant:
				print(*n.kids[0], R, out);
				if (!n.text.empty()) { out += n.text; break; }
				out += '{' + std::to_string(n.min); if (n.max != n.min || R.chance(1, 4)) { out += ','; if (n.max >= 0) out += std::to_string(n.max); } out += '}'; break;
			default: break;
		}
	}

	struct Gen
	{
		kv::Rng & R; std::string alphabet; int budget; bool look = false; int counts = 0; u64 most = 300;
		byte letter() { return (byte)alphabet[R.below(alphabet.size())]; }
		P cls()
		{
			P n = make(Set); const bool inv = R.chance(1, 3); std::string t = inv ? "[^" : "["; bool in[256] = {};
			const int items = 1 + (int)R.below(4);
			auto put = [&](byte c, bool first, bool last) { if (c == ']' || c == '\\' || (c == '^' && first && !inv) || (c == '-' && !first && !last) || (ispunct(c) && R.chance(1, 8))) t += '\\'; t += (char)c; };
			for (int i = 0; i < items; ++i)
			{
				const bool first = i == 0, last = i == items - 1;
				switch (R.below(8))
				{
					case 0: { static const char E[] = "dDsSwW"; const char e = E[R.below(6)]; t += '\\'; t += e; for (int c = 1; c < 256; ++c) if (inEscape(e, c)) in[c] = true; COV("class:escape"); if (R.chance(1, 4)) { t += '-'; in['-'] = true; COV("class:escape-dash"); } break; }
					case 1: case 2:
					{
						byte a = R.chance(1, 2) ? letter() : (byte)R.range(33, 126), b = R.chance(1, 2) ? letter() : (byte)R.range(33, 126); if (a > b) std::swap(a, b); if (a >= 128 || b >= 128) { a = '0'; b = '9'; } if (a == b) { if (b < 126) ++b; else --a; }
						auto bound = [&](byte c) { if (c == ']' || c == '\\' || c == '-' || c == '^') t += '\\'; t += (char)c; };
						bound(a); t += '-'; bound(b); for (int c = a; c <= b; ++c) in[c] = true; COV("class:range"); break;
					}
					default: { const byte c = R.chance(1, 8) ? (byte)"-^]\\[.*$"[R.below(8)] : letter(); put(c, first, last); in[c] = true; break; }
				}
			}
			t += ']'; n->text = t; for (int c = 1; c < 256; ++c) n->in[c] = in[c] != inv; if (inv) COV("class:negated"); else COV("class");
			return n;
		}
		P atom(int depth)
		{
			--budget; const u64 r = R.below(look ? 22 : 20); P n;
			if (r < 8 || budget <= 0) { n = make(Lit); n->c = letter(); return n; }
			if (r < 9) { n = make(Any); if (R.chance(1, 6)) n->text = "[^]"; return n; }
			if (r < 11) return cls();
			if (r < 12) { n = make(Set); static const char E[] = "dDsSwW"; const char e = E[R.below(6)]; n->text = std::string("\\") + e; for (int c = 1; c < 256; ++c) n->in[c] = inEscape(e, c); COV("escape"); return n; }
			if (r < 13) { static const Kind K[] = { Begin, End, Boundary, NoBoundary }; COV("assertion"); return make(K[R.below(4)]); }
			if (r >= 20 && depth > 0) { n = make(r == 20 ? Look : NotLook); n->kids.push_back(alt(depth - 1)); COV("lookahead"); return n; }
			if (depth <= 0) { n = make(Lit); n->c = letter(); return n; }
			n = make(Group); n->kids.push_back(alt(depth - 1)); COV("group"); return n;
		}
		P quantified(int depth)
		{
			P n = atom(depth); if (n->k == Begin || n->k == End || n->k == Boundary || n->k == NoBoundary || n->k == Look || n->k == NotLook) return n;
			bool again = false;
			while (R.chance(again ? 1 : 2, again ? 6 : 5))
			{
				P q = make(Quant); q->kids.push_back(n);
				switch (R.below(again ? 6 : 7))
				{
					case 6: q->max = 1; q->text = "?"; COV("quantifier:?"); break;
					case 0: case 1: q->min = 1; q->max = -1; q->text = "+"; COV("quantifier:+"); break;
					case 2: case 3: q->max = -1; q->text = "*"; COV("quantifier:*"); break;
					default: if (counts && R.chance(1, 2)) { q->min = (int)R.below(R.chance(1, 2) ? 16 : counts); q->max = R.chance(1, 3) ? q->min : R.chance(1, 3) ? -1 : q->min + (int)R.below(R.chance(1, 2) ? 16 : counts); if (q->max == 0 && q->min == 0) { q->min = q->max = 10; } COV("quantifier:many"); break; }
						q->min = (int)R.below(4); q->max = R.chance(1, 3) ? q->min : R.chance(1, 3) ? -1 : q->min + (int)R.below(3); if (q->max == 0) COV("quantifier:{0}"); else if (q->max < 0) COV("quantifier:{n,}"); else if (q->min == q->max) COV("quantifier:{n}"); else COV("quantifier:{n,m}"); break;
				}
				if (weight(*q) > most) break;
				if (again) COV("quantifier:stacked"); n = q; again = true;
			}
			return n;
		}
		P cat(int depth) { P n = make(Cat); const int k = R.chance(1, 12) ? 0 : 1 + (int)R.below(3); for (int i = 0; i < k && budget > 0; ++i) n->kids.push_back(quantified(depth)); if (!k) COV("empty-branch");
			if (!k && R.chance(1, 2)) { P q = make(Quant); q->kids.push_back(make(Cat)); switch (R.below(4)) { case 0: q->max = 1; q->text = "?"; break; case 1: q->min = 1; q->max = -1; q->text = "+"; break; case 2: q->max = -1; q->text = "*"; break; default: q->min = (int)R.below(3); q->max = q->min + (int)R.below(3); break; } n->kids.push_back(q); COV("quantifier:nothing"); }
			return n; }
		P alt(int depth) { P n = make(Alt); const int k = R.chance(1, 3) ? 2 + (int)R.below(2) : 1; for (int i = 0; i < k; ++i) n->kids.push_back(cat(depth)); if (k > 1) COV("alternation"); return n; }
	};

	/// Reference parser of well-formed patterns
	struct Parser
	{
		const std::string & p; size_t i = 0;
		P esc() { ++i; const char e = p[i++]; if (e == 'b') return make(Boundary); if (e == 'B') return make(NoBoundary); if (strchr("dDsSwW", e)) { P n = make(Set); n->text = std::string("\\") + e; for (int c = 1; c < 256; ++c) n->in[c] = inEscape(e, c); return n; } P n = make(Lit); n->c = (byte)e; return n; }
		P cls()
		{
			const size_t from = i++; bool inv = false, in[256] = {}; if (p[i] == '^') { inv = true; ++i; }
			while (p[i] != ']')
			{
				if (p[i] == '\\' && strchr("dDsSwW", p[i + 1])) { for (int c = 1; c < 256; ++c) if (inEscape(p[i + 1], c)) in[c] = true; i += 2; continue; }
				if (p[i] == '\\') ++i; const byte a = (byte)p[i++]; byte b = a;
				if (p[i] == '-' && p[i + 1] != ']') { ++i; if (p[i] == '\\') ++i; b = (byte)p[i++]; }
				for (int c = a; c <= b; ++c) in[c] = true;
			}
			++i; P n = make(Set); n->text = p.substr(from, i - from); for (int c = 1; c < 256; ++c) n->in[c] = in[c] != inv; return n;
		}
		P alt() { P n = make(Alt); n->kids.push_back(cat()); while (i < p.size() && p[i] == '|') { ++i; n->kids.push_back(cat()); } return n; }
		P cat()
		{
			P n = make(Cat);
			while (i < p.size() && p[i] != '|' && p[i] != ')')
			{
				P a;
				switch (p[i])
				{
					case '(': ++i; a = make(Group); a->kids.push_back(alt()); ++i; break;
					case '[': a = cls(); break;
					case '\\': a = esc(); break;
					case '.': ++i; a = make(Any); break;
					case '^': ++i; a = make(Begin); break;
					case '$': ++i; a = make(End); break;
					default: a = make(Lit); a->c = (byte)p[i++]; break;
				}
				while (i < p.size() && p[i] && strchr("?*+{", p[i]))
				{
					P q = make(Quant); q->kids.push_back(a); const size_t from = i;
					if (p[i] == '?') { q->max = 1; ++i; } else if (p[i] == '*') { q->max = -1; ++i; } else if (p[i] == '+') { q->min = 1; q->max = -1; ++i; }
					else { ++i; while (digit(p[i])) q->min = q->min * 10 + (p[i++] - '0'); q->max = q->min; if (p[i] == ',') { ++i; if (p[i] == '}') q->max = -1; else { q->max = 0; while (digit(p[i])) q->max = q->max * 10 + (p[i++] - '0'); } } ++i; }
					q->text = p.substr(from, i - from); a = q;
				}
				n->kids.push_back(a);
			}
			return n;
		}
	};
}
