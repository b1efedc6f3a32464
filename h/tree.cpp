// Ordered tree: behaviour against a reference multiset (C07) and red-black
// structure after each operation (C08).
#include "elems.h"
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <cmath>
#include "containers/tree.h"

/// Element with a key and an identity that the order ignores
template<typename BodyT>
struct Item
{
	BodyT body; int id;
	Item(int k, int i) : body(Elem<BodyT>::mk(k)), id(i) {}
	int key() const { return Elem<BodyT>::val(body); }
};
/// Heterogenous compare, results of any magnitude
template<typename BodyT>
struct ByKey
{
	static int diff(int a, int b)
	{
		const int64 gap = a < b ? (int64)b - a : (int64)a - b; if (!gap) return 0;
		const int m = gap % 7 == 3 ? 0x7fffffff : gap % 7 == 5 ? 0x10000000 : 1 + (int)(gap % 1000); return a > b ? m : gap % 14 == 3 ? -m - 1 : -m;
	}
	int32 operator()(const Item<BodyT> & a, const Item<BodyT> & b) const { return diff(a.key(), b.key()); }
	int32 operator()(const Item<BodyT> & a, int b) const { return diff(a.key(), b); }
	int32 operator()(int a, const Item<BodyT> & b) const { return diff(a, b.key()); }
};
/// Descending order
template<typename BodyT>
struct Descending
{
	int32 operator()(const Item<BodyT> & a, const Item<BodyT> & b) const { return (a.key() < b.key()) - (a.key() > b.key()); }
	int32 operator()(const Item<BodyT> & a, int b) const { return (a.key() < b) - (a.key() > b); }
	int32 operator()(int a, const Item<BodyT> & b) const { return (a < b.key()) - (a > b.key()); }
};

template<typename BodyT, typename CmpT>
struct TreeWork
{
	using ItemT = Item<BodyT>; using TreeT = BinaryTree<ItemT, CmpT>; using NodeT = typename TreeT::NodeT;
	typedef std::map<int, std::multiset<int>> Model;
	static const int NA = 3; static constexpr bool desc = __is_same(CmpT, Descending<BodyT>);
	kv::Rng & R; bool structure; TreeT * a[NA]; Model m[NA]; int nextid; int range; int pattern; int counter;

	TreeWork(kv::Rng & r, bool st) : R(r), structure(st), nextid(1), counter(0) { for (auto & x : a) x = new TreeT(); range = R.chance(1, 3) ? 6 : R.chance(1, 2) ? 40 : 100000; pattern = (int)R.below(6); }
	~TreeWork() { for (auto & x : a) delete x; }

	int key()
	{
		const int c = counter++;
		switch (pattern)
		{
			case 0: return c % range;						// ascending
			case 1: return range - 1 - c % range;			// descending
			case 2: return c % 2 ? c % range : range - 1 - c % range;	// alternating ends
			case 3: return (int)(((kv::u64)c * 2654435761u) % (kv::u64)range);
			default: return (int)R.below(range);
		}
	}
	static size_t sizeOf(const Model & x) { size_t n = 0; for (auto & e : x) n += e.second.size(); return n; }
	static std::vector<int> seq(const Model & x) { std::vector<int> v; for (auto & e : x) for (size_t i = 0; i < e.second.size(); ++i) v.push_back(e.first); if (desc) std::reverse(v.begin(), v.end()); return v; }

	// ---------------------------------------------------------- behaviour
	void behaviour(int k, const char * op)
	{
		TreeT & x = *a[k]; const TreeT & cx = x; const Model & r = m[k]; const std::vector<int> s = seq(r); const size_t n = s.size();
		EXPECT(cx.getNumNodes() == n && cx.getCount() == n && cx.getSize() == n, "count", "%s: number of nodes is %llu, expected %llu", op, (unsigned long long)cx.getNumNodes(), (unsigned long long)n);
		size_t i = 0; Model got; kv::u64 h = kv::mix(n); const ItemT * last = 0;
		for (const auto & e : cx) { EXPECT(i < n, "iteration", "%s: iteration visits more than %llu elements", op, (unsigned long long)n); const int v = e.key(); EXPECT(v == s[i], "order", "%s: element %llu of the iteration is %d, expected %d", op, (unsigned long long)i, v, s[i]); got[v].insert(e.id); h = kv::mix(h ^ (kv::u64)v); last = &e; ++i; }
		EXPECT(i == n, "iteration", "%s: iteration visits %llu of %llu elements", op, (unsigned long long)i, (unsigned long long)n);
		EXPECT(got == r, "content", "%s: the elements stored under some key are not the expected ones", op);
		kv::state(h);
		// Backward, from the last element
		if (n)
		{
			auto it = x.find(s[n - 1]); EXPECT(it != x.end(), "lookup", "%s: the largest element is not found", op);
			typename TreeT::Iterator b{x.getMax()}; i = n;
			while (b != x.end()) { EXPECT(i > 0, "iteration", "%s: backward iteration visits too many elements", op); --i; EXPECT(b->key() == s[i], "order", "%s: backward iteration differs at %llu", op, (unsigned long long)i); if (i & 1) --b; else { const typename TreeT::Iterator was = b; auto old = b--; EXPECT(old == was && (i == 0) == (b == x.end()), "iteration", "%s: post-decrement at %llu", op, (unsigned long long)i); } }
			EXPECT(i == 0, "iteration", "%s: backward iteration stops %llu elements early", op, (unsigned long long)i);
			typename TreeT::ConstIterator cb{cx.getMax()}; for (i = n; cb != cx.end();) { EXPECT(i > 0, "iteration", "%s: backward iteration visits too many elements", op); --i; auto old = cb--; EXPECT(old->key() == s[i], "order", "%s: const backward iteration differs at %llu", op, (unsigned long long)i); }
			EXPECT(i == 0, "iteration", "%s: const backward iteration stops %llu elements early", op, (unsigned long long)i);
			{ auto f = x.begin(); auto was = f; auto old = f++; EXPECT(old == was && (n == 1) == (f == x.end()), "iteration", "%s: post-increment", op); }
			EXPECT(cx.getMin() && cx.getMin()->data.key() == s[0] && x.getMin() == cx.getMin(), "extremes", "%s: min is %d, expected %d", op, cx.getMin() ? cx.getMin()->data.key() : -1, s[0]);
			EXPECT(cx.getMax() && cx.getMax()->data.key() == s[n - 1] && &cx.getMax()->data == last, "extremes", "%s: max is %d, expected %d", op, cx.getMax() ? cx.getMax()->data.key() : -1, s[n - 1]);
			EXPECT(&*x.begin() == &x.getMin()->data && &*cx.begin() == &x.getMin()->data, "extremes", "%s: begin is not the min", op);
		}
		else EXPECT(!cx.getMin() && !cx.getMax() && cx.begin() == cx.end() && x.begin() == x.end(), "extremes", "%s: extremes of an empty tree", op);
		// Lookups of present, absent and extreme keys, plain and heterogenous
		for (int q = 0; q < 4; ++q)
		{
			const int kk = n && q < 2 ? s[R.below(n)] : q == 2 ? (R.chance(1, 2) ? -1 : range) : (int)R.below(range);
			auto f = r.find(kk); const size_t c = f == r.end() ? 0 : f->second.size();
			const ItemT probe(kk, -1);
			EXPECT((x.findNode(kk) != 0) == (c > 0) && (cx.findNode(probe) != 0) == (c > 0), "lookup", "%s: findNode(%d) %s with %llu present", op, kk, x.findNode(kk) ? "finds" : "finds nothing", (unsigned long long)c);
			EXPECT((x.find(kk) != x.end()) == (c > 0) && (cx.find(probe) != cx.end()) == (c > 0), "lookup", "%s: find(%d) with %llu present", op, kk, (unsigned long long)c);
			if (c) { EXPECT(x.find(kk)->key() == kk && cx.find(kk)->key() == kk, "lookup", "%s: find(%d) finds another key", op, kk); COV("lookup-hit"); } else COV("lookup-miss");
			size_t j = 0; for (auto it = x.begin(kk), e = x.end(kk); it != e; ++it) { EXPECT(it != x.end() && it->key() == kk && j < c, "range", "%s: range of key %d with %llu present contains something else", op, kk, (unsigned long long)c); ++j; }
			EXPECT(j == c, "range", "%s: range of key %d has %llu elements, expected %llu", op, kk, (unsigned long long)j, (unsigned long long)c);
			j = 0; for (auto it = cx.begin(probe), e = cx.end(probe); it != e; it++) { EXPECT(it != cx.end() && (*it).key() == kk && j < c, "range", "%s: const range of key %d", op, kk); ++j; }
			EXPECT(j == c, "range", "%s: const range of key %d has %llu elements, expected %llu", op, kk, (unsigned long long)j, (unsigned long long)c);
			if (c > 1) COV("range-duplicates");
		}
	}

	// ---------------------------------------------------------- structure
	struct Walk { const NodeT * last; size_t n; size_t depth; kv::u64 h; };
	/// Returns the black height
	size_t walk(const NodeT * x, const NodeT * parent, size_t depth, Walk & w, const char * op)
	{
		if (!x) { if (depth > w.depth) w.depth = depth; return 1; }
		EXPECT(depth < 200, "structure", "%s: path of more than 200 nodes (cycle?)", op);
		EXPECT(x->parent == parent, "parent-link", "%s: parent link of a node at depth %llu does not mirror the child link", op, (unsigned long long)depth);
		const bool red = NodeT::isRed(x);
		EXPECT(red == (x->color == BinaryNodeColor::RED) && NodeT::isBlack(x) == !red, "colour", "%s: colour predicates", op);
		if (red) EXPECT(parent && !NodeT::isRed(x->left) && !NodeT::isRed(x->right), "red-red", "%s: red node at depth %llu is the root or has a red child", op, (unsigned long long)depth);
		const size_t l = walk(x->left, x, depth + 1, w, op);
		// In order: x
		EXPECT(x->prev == w.last, "threads", "%s: previous link of element %llu is not its in-order neighbour", op, (unsigned long long)w.n);
		if (w.last) { EXPECT(w.last->next == x, "threads", "%s: next link of element %llu is not its in-order neighbour", op, (unsigned long long)(w.n - 1)); EXPECT(CmpT{}(w.last->data, x->data) <= 0, "order", "%s: in-order traversal is not sorted at %llu", op, (unsigned long long)w.n); }
		w.last = x; ++w.n; w.h = kv::mix(w.h ^ (depth * 2 + red));
		const size_t r = walk(x->right, x, depth + 1, w, op);
		EXPECT(l == r, "black-height", "%s: %llu and %llu black nodes on the paths below a node at depth %llu", op, (unsigned long long)l, (unsigned long long)r, (unsigned long long)depth);
		return l + !red;
	}
	void shape(int k, const char * op)
	{
		const TreeT & x = *a[k]; const NodeT * root = x.getRoot();
		if (root) EXPECT(!root->parent && NodeT::isBlack(root), "root", "%s: the root %s", op, root->parent ? "has a parent" : "is red");
		Walk w{0, 0, 0, 1}; walk(root, 0, 0, w, op);
		if (w.last) EXPECT(!w.last->next, "threads", "%s: the last element has a next link", op);
		EXPECT(w.n == x.getNumNodes() && w.n == sizeOf(m[k]), "count", "%s: %llu nodes in the tree, %llu counted, %llu expected", op, (unsigned long long)w.n, (unsigned long long)x.getNumNodes(), (unsigned long long)sizeOf(m[k]));
		EXPECT((double)w.depth <= 2 * std::log2((double)w.n + 1) + 1e-9, "depth", "%s: depth %llu with %llu nodes", op, (unsigned long long)w.depth, (unsigned long long)w.n);
		if (root) { EXPECT(root->getMin() == x.getMin() && root->getMax() == x.getMax() && root->getMin()->getRoot() == root && root->getNumNodes() == w.n, "node-queries", "%s: min, max, root or size queries of nodes", op); }
		kv::state(w.h);
	}
	void check(int k, const char * op) { if (structure) shape(k, op); else behaviour(k, op); }

	/// Remove through an iterator to position p and check the position returned
	void removeAt(int k, size_t p, const char * op)
	{
		TreeT & x = *a[k]; Model & r = m[k]; const std::vector<int> s = seq(r); const int kk = s[p];
		typename TreeT::Iterator it = x.begin(); for (size_t i = 0; i < p; ++i) ++it;
		const std::multiset<int> before = r[kk];
		typename TreeT::Iterator nx = x.remove(it);
		// Exactly one of the elements with this key is gone
		std::multiset<int> after; for (auto i2 = x.begin(kk), e = x.end(kk); i2 != e; ++i2) after.insert(i2->id);
		std::multiset<int> gone = before; bool sub = true; for (int id : after) { auto f = gone.find(id); if (f == gone.end()) sub = false; else gone.erase(f); }
		EXPECT(sub && gone.size() == 1, "removed", "%s: removal at %llu leaves %llu of %llu elements of key %d", op, (unsigned long long)p, (unsigned long long)after.size(), (unsigned long long)before.size(), kk);
		if (after.empty()) r.erase(kk); else r[kk] = after;
		size_t i = p + 1; for (; nx != x.end(); ++nx, ++i) EXPECT(i < s.size() && nx->key() == s[i], "next-position", "%s: removal at %llu of %llu returns the wrong position (element %llu)", op, (unsigned long long)p, (unsigned long long)s.size(), (unsigned long long)i);
		EXPECT(i == s.size(), "next-position", "%s: removal at %llu of %llu returns a position %llu elements from the end", op, (unsigned long long)p, (unsigned long long)s.size(), (unsigned long long)(s.size() - i));
	}
	/// One element of key kk was removed in an unspecified way
	void droppedOne(int k, int kk, const char * op)
	{
		TreeT & x = *a[k]; Model & r = m[k]; std::multiset<int> after; for (auto i2 = x.begin(kk), e = x.end(kk); i2 != e; ++i2) after.insert(i2->id);
		std::multiset<int> gone = r[kk]; for (int id : after) { auto f = gone.find(id); EXPECT(f != gone.end(), "removed", "%s: unexpected element under key %d", op, kk); gone.erase(f); }
		EXPECT(gone.size() == 1, "removed", "%s: %llu elements of key %d removed instead of one", op, (unsigned long long)gone.size(), kk);
		if (after.empty()) r.erase(kk); else r[kk] = after;
	}

	void step()
	{
		const int k = (int)R.below(NA); TreeT & x = *a[k]; Model & r = m[k]; const size_t n = sizeOf(r);
		#define OP(name, ...) do { char b_[96]; snprintf(b_, sizeof(b_), __VA_ARGS__); kv::T("t%d.%s", k, b_); COV("op:" name); } while (0)
		switch (R.below(26))
		{
			case 0: case 1: case 2: { const int kk = key(), id = nextid++; OP("insert", "insert(%d#%d)", kk, id); ItemT & ref = R.chance(1, 2) ? x.insert(ItemT(kk, id)) : ({ const ItemT item(kk, id); ItemT & q = x.insert(item); EXPECT(item.key() == kk, "argument-altered", "insert altered its argument"); &q; })[0]; r[kk].insert(id); EXPECT(ref.key() == kk && ref.id == id, "returned-ref", "insert returns a reference to %d#%d", ref.key(), ref.id); break; }
			case 3: if (R.chance(1, 3)) { const int c = 2 + (int)R.below(8), id = nextid; nextid += c; int v[9]; for (int & e : v) e = key(); OP("insert-many", "insert(%d items from %d)", c, v[0]); kv::spread(c, [&](int i) { return ItemT(v[i], id + i); }, [&](auto && ...e) { x.insert(static_cast<decltype(e)>(e)...); }); for (int i = 0; i < c; ++i) r[v[i]].insert(id + i); break; } else { const int k0 = key(), k1 = key(), k2 = key(); const int id = nextid; nextid += 3; OP("insert-multi", "insert(%d,%d,%d)", k0, k1, k2); const ItemT item(k1, id + 1); x.insert(ItemT(k0, id), item, ItemT(k2, id + 2)); r[k0].insert(id); r[k1].insert(id + 1); r[k2].insert(id + 2); break; }
			case 4: case 5: case 6: { const int kk = key(), id = nextid++; const bool had = r.count(kk); OP("insertUnique", "insertUnique(%d#%d), %s", kk, id, had ? "present" : "absent"); COV(had ? "unique:present" : "unique:absent"); ItemT & ref = x.insertUnique(ItemT(kk, id)); EXPECT(ref.key() == kk, "returned-ref", "insertUnique returns another key"); if (!had) { r[kk].insert(id); EXPECT(ref.id == id, "returned-ref", "insertUnique of an absent key returns another element"); } else EXPECT(r[kk].count(ref.id), "returned-ref", "insertUnique of a present key returns another element"); break; }
			case 7: if (R.chance(1, 3)) { const int c = 2 + (int)R.below(8), id = nextid; nextid += c; int v[9]; for (int & e : v) e = key(); OP("insertUnique-many", "insertUnique(%d items from %d)", c, v[0]); kv::spread(c, [&](int i) { return ItemT(v[i], id + i); }, [&](auto && ...e) { x.insertUnique(static_cast<decltype(e)>(e)...); }); for (int i = 0; i < c; ++i) if (!r.count(v[i])) r[v[i]].insert(id + i); break; } else { const int k0 = key(), k1 = key(); const int id = nextid; nextid += 2; OP("insertUnique-multi", "insertUnique(%d,%d)", k0, k1); x.insertUnique(ItemT(k0, id), ItemT(k1, id + 1)); if (!r.count(k0)) r[k0].insert(id); if (!r.count(k1)) r[k1].insert(id + 1); break; }
			case 8: case 9:
			{
				auto replaced = [&](int kk, int id, bool had, const ItemT * ref)
				{
					if (!had) { r[kk].insert(id); return; }
					std::multiset<int> after; bool isNew = !ref; for (auto it = x.begin(kk), e = x.end(kk); it != e; ++it) { after.insert(it->id); isNew |= &*it == ref; } EXPECT(isNew && after.size() == r[kk].size(), "replace", "replacement of key %d: %llu elements instead of %llu", kk, (unsigned long long)after.size(), (unsigned long long)r[kk].size()); std::multiset<int> old = r[kk]; old.insert(id); for (int i : after) { auto f = old.find(i); EXPECT(f != old.end(), "replace", "unexpected element under the key"); old.erase(f); } EXPECT(after.count(id) == 1, "replace", "the new element is not stored"); r[kk] = after;
				};
				if (R.chance(1, 4) && range > 2)
				{
					int q[3]; bool had[3]; for (int j = 0; j < 3; ++j) { int tries = 0; do q[j] = ++tries < 8 ? key() : (int)R.below(range); while ((j > 0 && q[j] == q[0]) || (j > 1 && q[j] == q[1])); had[j] = r.count(q[j]); } const int id = nextid; nextid += 3; OP("replace-multi", "replace(%d#%d, %d, %d)", q[0], id, q[1], q[2]);
					const ItemT item(q[1], id + 1); x.replace(ItemT(q[0], id), item, ItemT(q[2], id + 2)); EXPECT(item.key() == q[1] && item.id == id + 1, "argument-altered", "replace altered its argument"); for (int j = 0; j < 3; ++j) replaced(q[j], id + j, had[j], 0); break;
				}
				if (R.chance(1, 6) && range > 20)
				{
					const int c = 2 + (int)R.below(8), id = nextid; nextid += c; int v[9]; bool had[9]; for (int j = 0; j < 9; ++j) { bool again; int tries = 0; do { v[j] = ++tries < 8 ? key() : (int)R.below(range); again = false; for (int l = 0; l < j; ++l) again |= v[l] == v[j]; } while (again); had[j] = r.count(v[j]); }
					OP("replace-many", "replace(%d items from %d)", c, v[0]); kv::spread(c, [&](int i) { return ItemT(v[i], id + i); }, [&](auto && ...e) { x.replace(static_cast<decltype(e)>(e)...); }); for (int j = 0; j < c; ++j) replaced(v[j], id + j, had[j], 0); break;
				}
				const int kk = key(), id = nextid++; const bool had = r.count(kk); OP("replace", "replace(%d#%d), %s", kk, id, had ? "present" : "absent"); COV(had ? "replace:present" : "replace:absent");
				ItemT & ref = x.replace(ItemT(kk, id)); EXPECT(ref.key() == kk && ref.id == id, "returned-ref", "replace returns %d#%d", ref.key(), ref.id); replaced(kk, id, had, &ref);
				break;
			}
			case 10: case 11: case 12: case 13: if (n && !R.chance(1, 16)) { const size_t p = R.chance(1, 4) ? 0 : R.chance(1, 4) ? n - 1 : R.below(n); OP("remove-iterator", "remove(position %llu of %llu)", (unsigned long long)p, (unsigned long long)n); removeAt(k, p, "remove"); } else { OP("remove-end", "remove(end)"); EXPECT(x.remove(x.end()) == x.end(), "next-position", "remove(end) returns a position"); } break;
			case 14: case 15: { const int kk = n && R.chance(3, 4) ? seq(r)[R.below(n)] : (int)R.below(range); const bool had = r.count(kk); OP("remove-value", "remove(value %d), %s", kk, had ? "present" : "absent"); const bool ok = x.remove(ItemT(kk, -1)); EXPECT(ok == had, "removed", "remove of a value %s returns %d", had ? "present" : "absent", ok); if (had) droppedOne(k, kk, "remove(value)"); break; }
			case 16: if (n) { const int kk = seq(r)[R.below(n)]; OP("remove-node", "removeNode of key %d", kk); x.removeNode(x.findNode(kk)); droppedOne(k, kk, "removeNode"); } break;
			case 17: if (R.chance(1, 4)) { OP("empty", "empty()"); x.empty(); r.clear(); } break;
			case 18: { const int j = (int)R.below(NA); OP("copy-assign", "= t%d (%llu <- %llu)", j, (unsigned long long)n, (unsigned long long)sizeOf(m[j])); TreeT & ret = (x = *(const TreeT *)a[j]); EXPECT(&ret == &x, "returned-ref", "copy assignment returns another object"); r = Model(m[j]); check(j, "copy-assign source"); break; }
			case 19: { const int j = (int)R.below(NA); OP("move-assign", "= move(t%d)", j); TreeT & ret = (x = ::move(*a[j])); EXPECT(&ret == &x, "returned-ref", "move assignment returns another object"); if (j != k) { r = m[j]; m[j].clear(); check(j, "moved-from tree"); } break; }
			case 20: { const int j = (int)R.below(NA); OP("copy-construct", "replaced by a copy of t%d (%llu)", j, (unsigned long long)sizeOf(m[j])); TreeT * c = new TreeT(*(const TreeT *)a[j]); Model cr = m[j]; delete a[k]; a[k] = c; m[k] = cr; break; }
			case 21: { const int j = (int)R.below(NA); OP("move-construct", "move-constructed from t%d", j); TreeT * c = new TreeT(::move(*a[j])); Model cr = m[j]; m[j].clear(); check(j, "moved-from tree"); delete a[k]; a[k] = c; m[k] = cr; break; }
			case 22: case 23: if (n)
			{
				const size_t p = R.chance(1, 4) ? 0 : R.chance(1, 4) ? n - 1 : R.below(n); const int kk = seq(r)[p], what = (int)R.below(5); typename TreeT::Iterator it = x.begin(); for (size_t i = 0; i < p; ++i) ++it;
				OP("own-element", "own element %llu of %llu, %s", (unsigned long long)p, (unsigned long long)n, what == 0 ? "inserted again" : what == 1 ? "inserted uniquely" : what == 2 ? "removed by value" : what == 3 ? "looked up" : "replaced");
				if (what == 0) { const int id = it->id; ItemT & ref = x.insert(*it); r[kk].insert(id); EXPECT(ref.key() == kk && ref.id == id, "returned-ref", "insert of an own element returns %d#%d", ref.key(), ref.id); }
				else if (what == 1) { ItemT & ref = x.insertUnique(*it); EXPECT(ref.key() == kk && r[kk].count(ref.id), "returned-ref", "insertUnique of an own element returns another key"); }
				else if (what == 2) { const bool ok = x.remove(*it); EXPECT(ok, "removed", "remove of an own element returns %d", ok); droppedOne(k, kk, "remove(own element)"); }
				else if (what == 3) { EXPECT(x.find(*it) != x.end() && x.find(*it)->key() == kk && x.findNode(*it), "lookup", "own element of key %d is not found", kk); size_t c = 0; for (auto b = x.begin(*it), e = x.end(*it); b != e; ++b) ++c; EXPECT(c == r[kk].size(), "range", "range of an own element has %llu elements", (unsigned long long)c); }
				else { const int id = it->id; ItemT & ref = x.replace(*it); EXPECT(ref.key() == kk && ref.id == id, "returned-ref", "replace by an own element returns %d#%d", ref.key(), ref.id); std::multiset<int> after; for (auto b = x.begin(kk), e = x.end(kk); b != e; ++b) after.insert(b->id); if (after != r[kk]) { EXPECT(after.size() == r[kk].size(), "replace", "replacement by an own element leaves %llu elements", (unsigned long long)after.size()); std::multiset<int> old = r[kk]; for (int i : after) if (i != id) { auto f = old.find(i); EXPECT(f != old.end(), "replace", "unexpected element under the key"); old.erase(f); } r[kk] = after; } }
			} break;
			default:
			{
				const int c = 1 + (int)R.below(10); OP("insert-many", "insert %d from pattern %d", c, pattern);
				for (int i = 0; i < c; ++i) { const int kk = key(), id = nextid++; kv::T(" %d#%d", kk, id); x.insert(ItemT(kk, id)); r[kk].insert(id); if (structure) shape(k, "insert"); }
				break;
			}
		}
		if (n > 6) kv::nontrivial();
		for (int j = 0; j < NA; ++j) if (j == k || R.chance(1, 8)) check(j, "after the last operation");
		if (n > 250) { a[k]->empty(); r.clear(); }
	}
	/// Grow and shrink one tree in adversarial orders, up to thousands of nodes
	void bulk()
	{
		bool huge = false; if constexpr (Elem<BodyT>::bulk) huge = R.chance(1, 60);
		const int n = huge ? 66000 + (int)R.below(9000) : 50 + (int)R.size(kv::G.thorough ? 12000 : 2500); range = R.chance(1, 4) ? 1 + n / 8 : n * 2; pattern = (int)R.below(6); counter = 0;
		if (huge) COV("nodes:huge"); const int every = 1 + n / (huge ? 4 : 40), dir = (int)R.below(5); TreeT & x = *a[0]; Model & r = m[0];
		kv::T("bulk: %d insertions, pattern %d, range %d, removal order %d", n, pattern, range, dir);
		for (int i = 0; i < n; ++i) { const int kk = key(), id = nextid++; x.insert(ItemT(kk, id)); r[kk].insert(id); if (i % every == 0) check(0, "bulk insertion"); }
		check(0, "after the bulk insertion");
		TreeT copy(*(const TreeT *)a[0]); *a[1] = copy; m[1] = r; check(1, "copy of a large tree");
		int left = n;
		for (int i = 0; left > 0; ++i)
		{
			typename TreeT::Iterator it = x.begin();
			if (dir == 1) it = typename TreeT::Iterator(x.getMax());
			else if (dir == 2) it = typename TreeT::Iterator(x.getRoot());
			else if (dir == 3) it = R.chance(1, 2) ? x.begin() : typename TreeT::Iterator(x.getMax());
			else if (dir == 4) { int kk = (int)R.below(range); auto f = r.lower_bound(kk); if (f == r.end()) f = r.begin(); it = x.find(f->first); }
			const int kk = it->key(), id = it->id; kv::T(" remove %d#%d", kk, id); x.remove(it); --left;
			if (r[kk].size() > 1) droppedOne(0, kk, "bulk removal"); else { r.erase(kk); EXPECT(!x.findNode(kk), "removed", "removed key %d is still found", kk); }
			if (left % every == 0 || left < 3) check(0, "bulk removal");
			if (R.chance(1, 2 * n)) break;
		}
		COV("bulk"); kv::nontrivial();
	}
	static void run(kv::Rng & R, bool structure)
	{
		const int steps = 8 + (int)R.below(kv::G.thorough ? 200 : 70);
		kv::T("tree of %s%s, %d steps", Elem<BodyT>::name(), desc ? " descending" : "", steps);
		{ TreeWork w(R, structure); if (R.chance(1, structure ? 12 : 30)) w.bulk(); for (int i = 0; i < steps; ++i) w.step(); for (int j = 0; j < NA; ++j) w.check(j, "at the end"); }
		kv::expectNoLive("after the trees were destroyed");
	}
	#undef OP
};

template<bool structure> static void suite(kv::Rng & R)
{
	switch (R.below(5))
	{
		case 0: TreeWork<int32, ByKey<int32>>::run(R, structure); break;
		case 1: TreeWork<int32, Descending<int32>>::run(R, structure); break;
		case 2: TreeWork<kv::Tracked<>, ByKey<kv::Tracked<>>>::run(R, structure); break;
		case 3: TreeWork<String, ByKey<String>>::run(R, structure); break;
		default: TreeWork<CopyOnly, Descending<CopyOnly>>::run(R, structure); break;
	}
}

/// Plain element types under the default comparison
template<typename T> static void plainRun(kv::Rng & R)
{
	using E = Elem<T>; using Ref = std::multiset<int>; BinaryTree<T> t; Ref r; const int range = R.chance(1, 2) ? 12 : 1000;
	const bool text = __is_same(T, String);
	kv::T("tree of %s, default comparison", E::name());
	for (int s = 0, n = 5 + (int)R.below(60); s < n; ++s)
	{
		const int v = (int)R.below(range), how = (int)R.below(6); T item = E::mk(v);
		kv::T("%d: %d", how, v);
		if (how < 2) { t.insert(item); r.insert(v); }
		else if (how == 2) { T & ref = t.insertUnique(item); EXPECT(E::val(ref) == v, "returned-ref", "insertUnique"); if (!r.count(v)) r.insert(v); }
		else if (how == 3) { t.replace(item); if (!r.count(v)) r.insert(v); }
		else { const bool ok = t.remove(item); EXPECT(ok == (r.count(v) > 0), "removed", "remove returns %d", ok); auto f = r.find(v); if (f != r.end()) r.erase(f); }
		EXPECT(t.getNumNodes() == r.size(), "count", "number of nodes is %llu, expected %llu", (unsigned long long)t.getNumNodes(), (unsigned long long)r.size());
		Ref got; const T * last = 0; for (const auto & e : t) { got.insert(E::val(e)); if (last) EXPECT(!(*last > e), "order", "iteration is not ascending"); last = &e; }
		EXPECT(got == r, "content", "unexpected elements");
		EXPECT((t.find(item) != t.end()) == (r.count(v) > 0), "lookup", "find of %d", v);
		uint64 c = 0; for (auto it = t.begin(item); it != t.end(item); ++it) ++c; EXPECT(c == r.count(v), "range", "range of %d has %llu elements, expected %llu", v, (unsigned long long)c, (unsigned long long)r.count(v));
		if (!text && r.size()) EXPECT(E::val(t.getMin()->data) == *r.begin() && E::val(t.getMax()->data) == *r.rbegin(), "extremes", "extremes");
		kv::state(kv::mix(r.size() * 77 + v));
	}
	if (r.size() > 3) kv::nontrivial();
}
static void plain(kv::Rng & R) { switch (R.below(4)) { case 0: plainRun<int32>(R); break; case 1: plainRun<uint64>(R); break; case 2: plainRun<kv::Tracked<>>(R); break; default: plainRun<String>(R); } kv::expectNoLive("after the tree was destroyed"); }

/// Standalone nodes, linked through their public operations only
template<typename BodyT, typename CmpT> static void nodesRun(kv::Rng & R)
{
	using ItemT = Item<BodyT>; using NodeT = BinaryNode<ItemT, CmpT>; const CmpT cmp{};
	{
		NodeT * root = 0; std::map<int, std::multiset<int>> r; size_t n = 0; int nextid = 1; const int range = R.chance(1, 3) ? 5 : R.chance(1, 2) ? 60 : 100000; const int pattern = (int)R.below(4); int counter = 0;
		const bool desc = __is_same(CmpT, Descending<BodyT>);
		auto key = [&] { const int c = counter++; return pattern == 0 ? c % range : pattern == 1 ? range - 1 - c % range : (int)R.below(range); };
		auto seq = [&] { std::vector<int> s; for (auto & e : r) for (size_t i = 0; i < e.second.size(); ++i) s.push_back(e.first); if (desc) std::reverse(s.begin(), s.end()); return s; };
		auto check = [&](const char * op)
		{
			if (!root) { EXPECT(n == 0, "count", "%s: no root is left with %zu elements", op, n); return; }
			EXPECT(!root->parent, "root", "%s: the root has a parent", op);
			EXPECT(NodeT::isBlack(root), "root", "%s: the root is red", op);
			typedef TreeWork<BodyT, CmpT> W; static kv::Rng dummy(1); static W * w = new W(dummy, true);
			typename W::Walk k{0, 0, 0, 1}; w->walk((const typename W::NodeT *)root, 0, 0, k, op);
			EXPECT(k.n == n && root->getNumNodes() == n, "count", "%s: %llu nodes linked, %llu counted, %zu expected", op, (unsigned long long)k.n, (unsigned long long)root->getNumNodes(), n);
			EXPECT(!k.last->next, "threads", "%s: the last node has a next link", op);
			const std::vector<int> s = seq(); const NodeT * x = root->getMin(); std::map<int, std::multiset<int>> got;
			EXPECT(!x->prev && root->getMax() == (const NodeT *)k.last, "extremes", "%s: first or last node", op);
			for (size_t i = 0; i < s.size(); ++i, x = x->next) { EXPECT(x && x->data.key() == s[i], "content", "%s: element %zu", op, i); got[x->data.key()].insert(x->data.id); EXPECT(x->getRoot() == root, "root", "%s: a node has another root", op); }
			EXPECT(!x && got == r, "content", "%s: the elements are not those inserted and not removed", op);
			for (int q = 0; q < 3; ++q)
			{
				const int kk = q && s.size() ? s[R.below(s.size())] : (int)R.below(range); const bool had = r.count(kk); NodeT * f = root->find(kk), * a = root->findMin(kk), * b = root->findMax(kk); const NodeT * cr = root;
				EXPECT((f != 0) == had && (a != 0) == had && (b != 0) == had && cr->find(kk) == f && cr->findMin(kk) == a && cr->findMax(kk) == b, "lookup", "%s: searches for key %d, which %s", op, kk, had ? "is there" : "is not there");
				if (had) { EXPECT(cmp(f->data, kk) == 0, "lookup", "%s: find yields another key", op); EXPECT((!a->prev || a->prev->data.key() != kk) && (!b->next || b->next->data.key() != kk) && a->data.key() == kk && b->data.key() == kk, "lookup", "%s: findMin or findMax of key %d is not the first or last element with that key", op, kk); size_t c = 1; for (; a != b; a = a->next) ++c; EXPECT(c == r[kk].size(), "lookup", "%s: %zu elements between findMin and findMax of key %d instead of %zu", op, c, kk, r[kk].size()); }
			}
			kv::state(k.h);
		};
		auto drop = [&](NodeT * x)
		{
			const int kk = x->data.key(), id = x->data.id; const NodeT * after = x->next; const int nk = after ? after->data.key() : 0, ni = after ? after->data.id : 0; kv::T("remove node %d#%d of %zu", kk, id, n); COV("node:remove");
			NodeT * valid = 0; const bool plain = R.chance(1, 4); NodeT * gone = plain ? x->remove() : x->remove(valid);
			if (gone != x) COV("node:evicted-other");
			EXPECT(gone && gone->data.key() == kk && gone->data.id == id, "removed", "removing %d#%d evicts another element", kk, id);
			if (!plain) EXPECT(after ? valid && valid != gone && valid->data.key() == nk && valid->data.id == ni : !valid, "next-position", "removing %d#%d of %zu does not yield the next valid node", kk, id, n);
			if (gone == root) root = root->left ? root->left : root->right;
			delete gone; if (root) root = root->getRoot();
			r[kk].erase(id); if (r[kk].empty()) r.erase(kk); --n; check("remove");
		};
		const int steps = 10 + (int)R.below(120); kv::T("standalone nodes of %s%s", Elem<BodyT>::name(), desc ? " descending" : "");
		for (int st = 0; st < steps; ++st)
		{
			const int op = (int)R.below(10);
			if (op < 7 || !root)
			{
				const bool unique = R.chance(1, 2); const int kk = key(), id = nextid++; NodeT * x = new NodeT(ItemT(kk, id)); EXPECT(!x->parent && !x->left && !x->right && !x->next && !x->prev && NodeT::isRed(x) && x->getRoot() == x && x->getMin() == x && x->getMax() == x && x->getNumNodes() == 1, "fresh", "a fresh node is linked"); const bool had = r.count(kk); kv::T("%s %d#%d", unique ? "insertUnique" : "insert", kk, id);
				if (!root) { root = x; x->color = BinaryNodeColor::BLACK; r[kk].insert(id); ++n; }
				else
				{
					NodeT * y = unique ? root->insertUnique(x) : root->insert(x);
					if (unique && had) { COV("node:duplicate"); EXPECT(y != x && y->data.key() == kk && r[kk].count(y->data.id), "returned", "insertUnique of a duplicate does not yield the existing node"); EXPECT(!x->parent && !x->left && !x->right && !x->next && !x->prev, "fresh", "a node not inserted is linked"); delete x; }
					else { COV("node:inserted"); EXPECT(y == x && x->data.key() == kk && x->data.id == id, "returned", "insertion does not yield the node inserted"); r[kk].insert(id); ++n; }
					root = root->getRoot();
				}
				check(unique ? "insertUnique" : "insert");
			}
			else { const size_t p = R.chance(1, 4) ? 0 : R.below(n); if (R.chance(1, 5)) drop(root); else { NodeT * x = root->getMin(); for (size_t i = 0; i < p; ++i) x = x->next; drop(x); } }
			if (n > 6) kv::nontrivial();
		}
		while (root) drop(R.chance(1, 3) ? root : R.chance(1, 2) ? root->getMin() : root->getMax());
	}
}
static void nodes(kv::Rng & R)
{
	switch (R.below(4)) { case 0: nodesRun<int32, ByKey<int32>>(R); break; case 1: nodesRun<int32, Descending<int32>>(R); break; case 2: nodesRun<kv::Tracked<>, ByKey<kv::Tracked<>>>(R); break; default: nodesRun<String, Descending<String>>(R); }
	kv::expectNoLive("after the nodes were destroyed");
}
KV_MAIN({"nodes", nodes, true}, {"multiset", suite<false>, true}, {"structure", suite<true>, true}, {"plain", plain, true})
