C = "library/cachex"
B = "library/bitset"
L = "gogenerics/gds/gskiplist"
R = "gogenerics/gds/grbt"
INS = '''
func check(t *testing.T, tree *RbTree[int, int], what string) {
	var walk func(n *rbNode[int, int]) int
	walk = func(n *rbNode[int, int]) int {
		if n == tree.sentinel {
			return 1
		}
		if !n.color && (!n.left.color || !n.right.color) {
			t.Fatal(what, "red entry with a red child")
		}
		l, r := walk(n.left), walk(n.right)
		if l != r {
			t.Fatal(what, "black heights differ", l, r)
		}
		if n.color {
			l++
		}
		return l
	}
	walk(tree.root)
}
'''
RBDEMO = '''
package rbt

import (
	"math/rand"
	"testing"
)
''' + INS + '''
func TestSeededDemo(t *testing.T) {
	for seed := int64(0); seed < 200; seed++ {
		r := rand.New(rand.NewSource(seed))
		tree := New[int, int](func(a, b int) bool { return a < b })
		for i := 0; i < 200; i++ {
			k := r.Intn(60)
			if r.Intn(2) == 0 {
				tree.Insert(k, i)
			} else {
				tree.Delete(k)
			}
			check(t, tree, "after random calls:")
		}
	}
}
'''
MAPDEMO = '''
package rbt

import (
	"math/rand"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for seed := int64(0); seed < 200; seed++ {
		r := rand.New(rand.NewSource(seed))
		tree := New[int, int](func(a, b int) bool { return a < b })
		m := map[int]int{}
		for i := 0; i < 300; i++ {
			k := r.Intn(60)
			if r.Intn(2) == 0 {
				tree.Insert(k, i)
				m[k] = i
			} else {
				tree.Delete(k)
				delete(m, k)
			}
			if tree.Len() != len(m) || len(tree.Keys()) != len(m) {
				t.Fatal("length", tree.Len(), len(m))
			}
			for k := 0; k < 60; k++ {
				v, ok := m[k]
				if tree.Search(k) != ok || tree.Get(k) != v {
					t.Fatal(seed, i, "key", k, tree.Search(k), tree.Get(k), ok, v)
				}
			}
		}
	}
}
'''
LDEMO = '''
package gskiplist

import (
	"math/rand"
	"sort"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for seed := int64(0); seed < 300; seed++ {
		r := rand.New(rand.NewSource(seed))
		l := New[int, int]()
		m := map[int]int{}
		for i := 0; i < 60; i++ {
			k := r.Intn(30)
			if r.Intn(2) == 0 {
				l.Insert(k, i)
				m[k] = i
			} else {
				l.Delete(k)
				delete(m, k)
			}
			if l.GetNodeCount() != len(m) {
				t.Fatal("count", l.GetNodeCount(), len(m))
			}
			if len(m) == 0 {
				if l.GetLargestNode() != nil || l.GetSmallestNode() != nil {
					t.Fatal("an empty list has nodes")
				}
				continue
			}
			var keys []int
			for k := range m {
				keys = append(keys, k)
			}
			sort.Ints(keys)
			e := l.GetSmallestNode()
			for j := 0; j < 2*len(keys); j++ {
				if e.key != keys[j%len(keys)] || e.value != m[e.key] {
					t.Fatal("next", j, e.key, keys)
				}
				e = l.Next(e)
			}
			e = l.GetSmallestNode()
			for j := 0; j < 2*len(keys); j++ {
				if e.key != keys[(2*len(keys)-j)%len(keys)] {
					t.Fatal("prev", j, e.key, keys)
				}
				e = l.Prev(e)
			}
		}
	}
}
'''
SEEDS = [
dict(id="c08-alive-milli", prop="C08", pkg=C,
 edits=[(C+"/file.go", '''	return fi.Exp > time.Now().UnixNano()
''', '''	return fi.Exp/int64(time.Millisecond) >= time.Now().UnixMilli()
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	f := &FileStore[string, string]{Dir: t.TempDir()}
	for i := 0; i < 500; i++ {
		f.Set(ctx, "a", "v", 1)
		if v, ok, err := f.Get(ctx, "a"); ok {
			t.Fatal("expired entry returned", v, ok, err)
		}
	}
}
''', needs="a read within the millisecond in which the entry expired", breaks="expired entries are returned for up to a millisecond"),
dict(id="c10-mfill-first", prop="C10", pkg=C,
 edits=[(C+"/cache.go", "		c.msetForMGet(ctx, c.Caches[:idx], keys, vals, oks)\n", "		if idx > 0 {\n			c.msetForMGet(ctx, c.Caches[idx-1:idx], keys, vals, oks)\n		}\n")],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	a, b, d := NewLRUCacheV2[string, int](4, 0), NewLRUCacheV2[string, int](4, 0), NewLRUCacheV2[string, int](4, 0)
	d.Set(ctx, "k", 1, time.Hour)
	c := &Chain[string, int]{Caches: []*ChainItem[string, int]{{Cache: a, TTL: time.Hour}, {Cache: b, TTL: time.Hour}, {Cache: d, TTL: time.Hour}}}
	if v, ok, err := c.MGet(ctx, "k"); v[0] != 1 || !ok[0] || err != nil {
		t.Fatal(v, ok, err)
	}
	for i, l := range []*LRUCacheV2[string, int]{a, b} {
		if _, ok, _ := l.Get(ctx, "k"); !ok {
			t.Fatal("level", i, "was not filled")
		}
	}
}
''', needs="a batch hit in the third level or later", breaks="only the level just above is filled"),
dict(id="c11-hitmiss-inplace", prop="C11", pkg=C,
 edits=[(C+"/cache.go", '''	hit = make([]K, 0, len(mr.keys))
	miss = make([]K, 0, len(mr.keys))
''', '''	hit = mr.keys[:0]
	miss = make([]K, 0, len(mr.keys))
''')],
 demo='''
package cachex

import (
	"context"
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	ctx := context.Background()
	c := NewLRUCacheV2[string, int](4, 0)
	c.Set(ctx, "k", 1, time.Hour)
	r, err := MGet[string, int](ctx, c, "x", "k")
	r.HitMissKeys()
	if m := r.MissKeys(); err != nil || len(m) != 1 || m[0] != "x" {
		t.Fatal(m, err)
	}
}
''', needs="HitMissKeys with a miss before a hit, followed by another view", breaks="the views disagree with each other"),
dict(id="c13-set-size", prop="C13", pkg=B,
 edits=[(B+"/bitset.go", '''func (b *BitSet) Set(offset int, value bool) (bool, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	size := b.size()
''', '''func (b *BitSet) Set(offset int, value bool) (bool, error) {
	size := b.Size()
	b.mu.Lock()
	defer b.mu.Unlock()
''')],
 demo='''
package bitset

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	// Set(-1) waits for the lock while the set grows: it must hit the last bit
	b := New(0)
	b.mu.Lock()
	type result struct {
		old bool
		err error
	}
	done := make(chan result)
	go func() {
		old, err := b.Set(-1, false)
		done <- result{old, err}
	}()
	time.Sleep(100 * time.Millisecond)
	b.set = []byte{1, 1} // as Set(15, true) and then Set(7, true) would leave it
	b.mu.Unlock()
	r := <-done
	// after both calls, or before both of them
	if got := b.String(); !(got == "0100" && r.old || got == "0101" && !r.old) {
		t.Fatal(got, r)
	}
}
''', needs="the set grown by another goroutine between the reading of its size for a negative offset and the locking", breaks="Set(-1) hits a bit that is not the last one"),
dict(id="c14-delete-prev", prop="C14", pkg=L,
 edits=[(L+"/skiplist.go", '''				if nextNode.next[index] != nil {
					nextNode.next''', '''				if nextNode.next[index] != nil && currentNode != nil {
					nextNode.next''')],
 demo=LDEMO, needs="deleting the smallest of several entries and then walking back from the new smallest", breaks="Prev from the smallest entry returns the deleted one"),
dict(id="c14-count-early", prop="C14", pkg=L,
 edits=[(L+"/skiplist.go", '''	if _, ok := t.findExtended(key, false); ok {
		t.ChangeValue(key, e)
		return
	}

	level := t.generateLevel(t.maxNewLevel)
''', '''	t.elementCount++
	if t.ChangeValue(key, e) {
		return
	}

	level := t.generateLevel(t.maxNewLevel)
'''), (L+"/skiplist.go", '''		key:   key,
	}

	t.elementCount++

''', '''		key:   key,
	}

''')],
 demo=LDEMO, needs="inserting a key that is already there", breaks="the node count"),
dict(id="c14-end-level", prop="C14", pkg=L,
 edits=[(L+"/skiplist.go", '''			if nextNode.next[index] == nil {
				t.endLevels[index] = currentNode
			}
''', '''			if t.endLevels[index] == nextNode && currentNode != nil {
				t.endLevels[index] = currentNode
			}
''')],
 demo=LDEMO, needs="the last entry of a list deleted and then used again", breaks="a deleted node stays the end of the list"),
dict(id="c15-subtree-single", prop="C15", pkg=R,
 edits=[(R+"/rbt.go", """	subTree := New[K, V](tree.less)
	var traverse func(node *rbNode[K, V])
	traverse = func(node *rbNode[K, V]) {
		if node == tree.sentinel {
			return
		}

		if node.left != tree.sentinel {
			traverse(node.left)
		}

		if node.key == fromKey && fromInclusive {
""", """	subTree := New[K, V](tree.less)
	if fromKey == toKey {
		// no need to walk the whole tree for a single key
		if fromInclusive || toInclusive {
			subTree.Insert(fromKey, tree.Get(fromKey))
		}
		return subTree
	}
	var traverse func(node *rbNode[K, V])
	traverse = func(node *rbNode[K, V]) {
		if node == tree.sentinel {
			return
		}

		if node.left != tree.sentinel {
			traverse(node.left)
		}

		if fromInclusive && node.key == fromKey {
""")],
 demo='''
package rbt

import "testing"

func TestSeededDemo(t *testing.T) {
	tree := New[int, int](func(a, b int) bool { return a < b })
	for i := 0; i < 40; i += 2 {
		tree.Insert(i, i)
	}
	for a := 0; a < 40; a++ {
		if n := tree.SubTree(a, true, a, true).Len(); n != 1-a%2 {
			t.Fatal(a, n)
		}
	}
}
''', needs="a range of a single key that is not in the tree", breaks="the view holds an entry the tree does not have"),
dict(id="c15-getif-prune", prop="C15", pkg=R,
 edits=[(R+"/rbt.go", """		if f(node.key) {
			values = append(values, node.value)
		}

		if node.right != tree.sentinel {
			traverse(node.right)
		}
""", """		hit := f(node.key)
		if hit {
			values = append(values, node.value)
		}

		if node.right != tree.sentinel && (hit || len(values) == 0 || node.left == tree.sentinel) {
			traverse(node.right)
		}
""")],
 demo='''
package rbt

import "testing"

func TestSeededDemo(t *testing.T) {
	tree := New[int, int](func(a, b int) bool { return a < b })
	for i := 0; i < 64; i++ {
		tree.Insert(i, i)
	}
	for mod := 2; mod < 7; mod++ {
		want := 0
		for i := 0; i < 64; i++ {
			if i%mod == 0 {
				want++
			}
		}
		if n := len(tree.GetIf(func(k int) bool { return k%mod == 0 })); n != want {
			t.Fatal(mod, n, want)
		}
	}
}
''', needs="a predicate that does not hold on one contiguous range", breaks="values are missing from GetIf"),
dict(id="c16-fix-left-black", prop="C16", pkg=R,
 edits=[(R+"/rbt.go", """				s.left.color = black
				tree.rightRotate(x.parent)
""", """				tree.rightRotate(x.parent)
""")],
 demo=RBDEMO, needs="a deletion from the right part whose sibling has an outer red child", breaks="the tree is no longer balanced"),
dict(id="c16-fix-right-black", prop="C16", pkg=R,
 edits=[(R+"/rbt.go", """				s.right.color = black
				tree.leftRotate(x.parent)
""", """				tree.leftRotate(x.parent)
""")],
 demo=RBDEMO, needs="a deletion from the left part whose sibling has an outer red child", breaks="the tree is no longer balanced"),
dict(id="c16-fix-final", prop="C16", pkg=R,
 edits=[(R+"/rbt.go", """			}
		}
	}
	x.color = black
}""", """			}
		}
	}
	tree.root.color = black
}""")],
 demo=RBDEMO, needs="a deletion that ends at a red entry", breaks="the tree is no longer balanced"),
dict(id="c16-y-color", prop="C16", pkg=R,
 edits=[(R+"/rbt.go", """		y.left.parent = y
		y.color = z.color
""", """		y.left.parent = y
""")],
 demo=RBDEMO, needs="deleting an entry with two children whose successor has another colour", breaks="the tree is no longer balanced"),
dict(id="c16-red-sibling", prop="C16", pkg=R,
 edits=[(R+"/rbt.go", """				s.color = black
				x.parent.color = red
				tree.rightRotate(x.parent)
				s = x.parent.left
""", """				tree.rightRotate(x.parent)
				s = x.parent.left
""")],
 demo=RBDEMO, needs="a deletion from the right part with a red sibling", breaks="the tree is no longer balanced"),
dict(id="c16-sib-red", prop="C16", pkg=R,
 edits=[(R+"/rbt.go", """				s = x.parent.left
			}

			if s.left.color && s.right.color {
				s.color = red
""", """				s = x.parent.left
			}

			if s.left.color && s.right.color {
""")],
 demo=RBDEMO, needs="a deletion from the right part whose sibling has two black children", breaks="the tree is no longer balanced"),
dict(id="c16-sentinel-parent", prop="C16", pkg=R,
 edits=[(R+"/rbt.go", '''		if y.parent == z {
			x.parent = y
		} else {
''', '''		if y.parent != z {
''')],
 demo=RBDEMO, needs="deleting an entry whose successor is its black right child without children", breaks="the rebalancing starts from a stale parent"),
]
