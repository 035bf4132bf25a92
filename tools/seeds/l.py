HEAD = r'''
#include <ustl.h>
#include <stdio.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
template <typename C> static bool heapok (const int* a, int n, C c) { for (int k = 1; k < n; ++k) if (c (a[(k-1)/2], a[k])) return false; return true; }
'''
HEAD2 = HEAD
SEEDS = [
dict(id="s11a", prop="C11", needs="a heap in which a hole travels to a node whose only child is the last element",
 breaks="trickle_down_heap does not look at an only (last left) child deeper than the root",
 edits=[("uheap.h", "(iChild = 2 * iHole + 1) < heapSize;)", "(iChild = 2 * iHole + 1) < heapSize - (iHole > 1);)")],
 demo=HEAD + r"""
int main() { unsigned s = 7; for (int t = 0; t < 3000; ++t) { int a[12]; int n = 1 + t % 12; for (int i = 0; i < n; ++i) { s = s*1103515245 + 12345; a[i] = (s >> 16) % 20; }
  make_heap (a, a+n); CHECK (heapok (a, n, less<int>())); pop_heap (a, a+n); CHECK (heapok (a, n-1, less<int>())); } return 0; }"""),
dict(id="s11b", prop="C11", needs="a pushed element equal to some ancestor or bigger, on the right of a node two levels down",
 breaks="push_heap stops one level below the root when the new element got there from the right",
 edits=[("uheap.h", "	*last = *iParent;\n	last = iParent;\n    }", "	*last = *iParent;\n	last = iParent;\n	if (last - first == 2)\n	    break;\n    }")],
 demo=HEAD + r"""
int main() { unsigned s = 7; for (int t = 0; t < 3000; ++t) { int a[12]; int n = 1 + t % 12; for (int i = 0; i < n; ++i) { s = s*1103515245 + 12345; a[i] = (s >> 16) % 20;
  push_heap (a, a+i+1); CHECK (heapok (a, i+1, less<int>())); } } return 0; }"""),
dict(id="s11c", prop="C11", needs="a range whose only violation is the right child at the very end",
 breaks="is_heap overlooks the last element when it is a right child",
 edits=[("uheap.h", "(++iChild < last && comp (*first, *iChild)))", "(++iChild < last && comp (*first, *iChild) && iChild + 1 < last))")],
 demo=HEAD + r"""
int main() { int a[5] = {9,8,7,6,5}; CHECK (is_heap (a, a+5)); int b[5] = {9,5,7,4,6}; CHECK (!is_heap (b, b+5)); int c[3] = {3,1,4}; CHECK (!is_heap (c, c+3)); int d[4] = {3,1,4,0}; CHECK (!is_heap (d, d+4)); return 0; }"""),
dict(id="s11d", prop="C11", needs="a priority_queue with a comparator object that is not default-constructed behaviour, filled by emplace",
 breaks="emplace sifts by a default comparator in place of the queue's own",
 edits=[("uheap.h", "_v.emplace_back (forward<Args>(args)...); push_heap (_v.begin(), _v.end(), _c); }", "_v.emplace_back (forward<Args>(args)...); push_heap (_v.begin(), _v.end(), Comp()); }")],
 demo=HEAD + r"""
struct C { bool d; C (bool D = false) : d(D) {} bool operator() (int a, int b) const { return d ? b < a : a < b; } };
int main() { priority_queue<int, vector<int>, C> q ((C(true))); q.emplace (3); q.emplace (1); q.emplace (2); CHECK (q.top() == 1); q.pop(); CHECK (q.top() == 2);
  priority_queue<int, vector<int>, C> r; r.emplace (3); r.emplace (5); CHECK (r.top() == 5); return 0; }"""),
dict(id="s11e", prop="C11", needs="even number of elements with the largest of them the only child of the last inner node",
 breaks="make_heap starts one node too early for even sizes",
 edits=[("uheap.h", "first + (heapSize - 1)/2; i >= first", "first + (heapSize - 1)/2 - (heapSize > 3 && heapSize % 2 == 0); i >= first")],
 demo=HEAD + r"""
int main() { unsigned s = 7; for (int t = 0; t < 3000; ++t) { int a[12]; int n = 1 + t % 12; for (int i = 0; i < n; ++i) { s = s*1103515245 + 12345; a[i] = (s >> 16) % 20; }
  make_heap (a, a+n); CHECK (heapok (a, n, less<int>())); } return 0; }"""),
dict(id="s19a", prop="C19", needs="enough pops for the front to pass the middle, with an odd number of stored elements",
 breaks="queue::pop keeps one consumed element when it compacts an odd-sized storage",
 edits=[("uqueue.h", "_storage.erase (_storage.begin(), _front);\n					_front = 0;", "const size_type odd = _storage.size() & (_front > 2);\n					_storage.erase (_storage.begin(), _front - odd);\n					_front = 0;")],
 demo=HEAD + r"""
int main() { for (int n = 1; n < 12; ++n) { queue<int> q; for (int i = 0; i < n; ++i) q.push (i); for (int i = 0; i < n; ++i) { CHECK (q.size() == size_t(n - i)); CHECK (q.front() == i); CHECK (q.back() == n-1); q.pop(); } CHECK (q.empty()); } return 0; }"""),
dict(id="s19b", prop="C19", needs="splice of the rest of a list (no last given) of which only a part is moved",
 breaks="splice with only first given takes the whole of the source out",
 edits=[("ulist.h", "    l.erase (first, last);\n", "    if (last == l.end() && first != l.begin() + 1) first = l.begin();\n    l.erase (first, last);\n")],
 demo=HEAD + r"""
int main() { list<int> a, b; for (int i = 0; i < 5; ++i) { a.push_back (i); b.push_back (10+i); } a.splice (a.begin() + 2, b, b.begin() + 2); CHECK (a.size() == 8); CHECK (b.size() == 2);
  CHECK (a[2] == 12 && a[4] == 14 && a[5] == 2); CHECK (b[0] == 10 && b[1] == 11); list<int> c; c.splice (c.begin(), b); CHECK (c.size() == 2 && b.empty()); return 0; }"""),
dict(id="s19c", prop="C19", needs="merge of a longer list into a shorter, non-empty one",
 breaks="list::merge reads its own elements from the wrong place when the other list is longer",
 edits=[("ulist.h", "::ustl::merge (this->iat(l.size()), end()", "::ustl::merge (this->iat(l.size() - (l.size() > 2*(size() - l.size()) && size() > l.size() + 1)), end()")],
 demo=HEAD + r"""
int main() { for (int n = 0; n < 5; ++n) for (int m = 0; m < 14; ++m) { list<int> a, b; for (int i = 0; i < n; ++i) a.push_back (3*i+1); for (int i = 0; i < m; ++i) b.push_back (2*i);
  a.merge (b); CHECK (a.size() == size_t(n+m)); int s = 0; for (int i = 0; i < n+m; ++i) { s += a[i]; CHECK (!i || a[i-1] <= a[i]); } CHECK (s == 3*n*(n-1)/2 + n + m*(m-1)); } return 0; }"""),
dict(id="s19d", prop="C19", needs="move construction of a queue from which elements were popped",
 breaks="the new queue forgets how many elements were consumed",
 edits=[("uqueue.h", "_storage(move(v._storage)),_front(v._front) { v._front = 0; }", "_storage(move(v._storage)),_front(v._front / 2 * 2) { v._front = 0; }")],
 demo=HEAD + r"""
int main() { queue<int> q; for (int i = 0; i < 9; ++i) q.push (i); q.pop(); queue<int> r (static_cast<queue<int>&&> (q)); CHECK (r.size() == 8 && r.front() == 1); CHECK (q.empty()); r.pop(); queue<int> s (static_cast<queue<int>&&> (r)); CHECK (s.front() == 2 && s.size() == 7); return 0; }"""),
]
