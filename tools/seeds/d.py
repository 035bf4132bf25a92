HEAD = r'''
#include <ustl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
static int s_live = 0;
struct Cnt { int v; Cnt (int a = 0) : v(a) { ++s_live; } Cnt (const Cnt& c) : v(c.v) { ++s_live; } ~Cnt() { --s_live; } Cnt& operator= (const Cnt& c) { v = c.v; return *this; } };
'''
SEEDS = [
dict(id="s06a", prop="C06", needs="resizing with a fill value to exactly one element less",
 breaks="shrinking a vector by one element with resize (n, v) never destroys the removed element",
 edits=[("uvector.h", "    iterator inewend = iterator(_data.begin()+nb);\n    if (nb < _data.size())\n	destroy (inewend, end());\n    else\n	uninitialized_fill (end(), inewend, v);", "    iterator inewend = iterator(_data.begin()+nb);\n    if (nb + sizeof(T) < _data.size())\n	destroy (inewend, end());\n    else\n	uninitialized_fill (end(), inewend, v);")],
 demo=HEAD + r"""
int main() { { vector<Cnt> v; v.resize (5, Cnt(1)); CHECK (s_live == 5); v.resize (3, Cnt(1)); CHECK (s_live == 3); v.resize (2, Cnt(1)); CHECK (s_live == 2); v.resize (4, Cnt(2)); CHECK (v[3].v == 2); } CHECK (s_live == 0); return 0; }"""),
dict(id="s06b", prop="C06", needs="calling deallocate on a vector of elements with destructors",
 breaks="deallocate frees the storage first and then finds no elements left to destroy",
 edits=[("uvector.h", "    destroy_all();\n    _data.deallocate();", "    _data.deallocate();\n    destroy_all();")],
 demo=HEAD + r"""
int main() { vector<Cnt> v; for (int i = 0; i < 5; ++i) v.push_back (Cnt(i)); CHECK (s_live == 5); v.deallocate(); CHECK (s_live == 0); CHECK (v.empty() && !v.capacity()); return 0; }"""),
dict(id="s06c", prop="C06", needs="assigning fewer copies than the vector holds",
 breaks="assign (n, v) keeps the surplus elements",
 edits=[("uvector.h", "    resize (n);\n    ::ustl::fill (begin(), end(), v);", "    if (n > size())\n	resize (n);\n    ::ustl::fill (begin(), end(), v);")],
 demo=HEAD + r"""
int main() { vector<int> v; v.assign (3, 7); CHECK (v.size() == 3 && v[2] == 7); v.assign (5, 8); CHECK (v.size() == 5); v.assign (2, 9); CHECK (v.size() == 2 && v[1] == 9); return 0; }"""),
dict(id="s07a", prop="C07", needs="erasing a key that is absent while a greater one is present",
 breaks="set::erase of a missing key removes the next greater element",
 edits=[("uset.h", "{ iterator ip = find (v); if (ip != end()) erase (ip); }", "{ iterator ip = lower_bound (v); if (ip != end()) erase (ip); }")],
 demo=HEAD + r"""
int main() { set<int> s; for (int i = 0; i < 10; ++i) s.insert (i*2); s.erase (4); CHECK (s.size() == 9); s.erase (100); CHECK (s.size() == 9); s.erase (5); CHECK (s.size() == 9); CHECK (s.find (6) != s.end()); return 0; }"""),
dict(id="s07b", prop="C07", needs="a key type whose ordering is coarser than its equality",
 breaks="map::insert admits a second equivalent key when it is not == to the first",
 edits=[("umap.h", "typename map<K,V,Comp>::insertrv_t map<K,V,Comp>::insert (const_reference v)\n{\n    iterator ip = lower_bound (v.first);\n    bool bInserted = ip == end() || Comp()(v.first, ip->first);", "typename map<K,V,Comp>::insertrv_t map<K,V,Comp>::insert (const_reference v)\n{\n    iterator ip = lower_bound (v.first);\n    bool bInserted = ip == end() || !(ip->first == v.first);")],
 demo=HEAD + r"""
struct Id { int g, n; bool operator< (const Id& o) const { return g < o.g; } bool operator== (const Id& o) const { return g == o.g && n == o.n; } };
int main() { map<Id,int> m; const pair<Id,int> a (Id{1,1}, 5), b (Id{1,2}, 6), c (Id{2,0}, 7); m.insert (a); m.insert (c); CHECK (!m.insert (a).second); CHECK (!m.insert (b).second); CHECK (m.size() == 2); CHECK (m.count (Id{1,9}) == 1); return 0; }"""),
dict(id="s07c", prop="C07", needs="erasing by a key that no element has",
 breaks="multiset::erase of an absent key removes an unrelated element",
 edits=[("umultiset.h", "erase (epr.first, epr.second); return distance(epr.first, epr.second); }", "erase (epr.first, max (epr.second, epr.first + (epr.first != end()))); return distance(epr.first, epr.second); }")],
 demo=HEAD + r"""
int main() { multiset<int> s; for (int i = 0; i < 10; ++i) s.insert (i/2*2); const int two = 2, three = 3, big = 99; CHECK (s.erase (two) == 2); CHECK (s.size() == 8); CHECK (s.erase (big) == 0); CHECK (s.size() == 8); CHECK (s.erase (three) == 0); CHECK (s.size() == 8); return 0; }"""),
dict(id="s07d", prop="C07", needs="searching mapped data that is absent or only in the last element",
 breaks="map::find_data stops one short and returns the last element instead of the end",
 edits=[("umap.h", "    for (; first != last && first->second != v; ++first) {}\n    return first;", "    for (; first + 1 < last && first->second != v; ++first) {}\n    return first;")],
 demo=HEAD + r"""
int main() { map<int,int> m; for (int i = 0; i < 5; ++i) m[i] = i*10; CHECK (m.find_data (20)->first == 2); CHECK (m.find_data (40)->first == 4); CHECK (m.find_data (7) == m.end()); return 0; }"""),
]
