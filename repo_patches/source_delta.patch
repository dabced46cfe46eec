From 064290b10cef825aa99fff216e3d7ff3337fd959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 01/17] fix: Range.Plus merges correctly when a range ends at
 the last address

---
 ipv4/range.go | 3 ++-
 ipv6/range.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipv4/range.go b/ipv4/range.go
index 358d71f..9a5ddb2 100644
--- a/ipv4/range.go
+++ b/ipv4/range.go
@@ -84,7 +84,8 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// next() overflows if `a` goes to the end of the IP space
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
diff --git a/ipv6/range.go b/ipv6/range.go
index b21c533..e5c2cf7 100644
--- a/ipv6/range.go
+++ b/ipv6/range.go
@@ -78,7 +78,8 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// next() overflows if `a` goes to the end of the IP space
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
-- 
2.43.0


From 0ddd017fb008ffcce6b362ff65b1c16d6b30a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 02/17] fix: WalkAddresses terminates when the set includes
 255.255.255.255

---
 ipv4/prefix.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipv4/prefix.go b/ipv4/prefix.go
index fef78d1..9f44781 100644
--- a/ipv4/prefix.go
+++ b/ipv4/prefix.go
@@ -211,12 +211,16 @@ func (me Prefix) Uint32() (address, mask uint32) {
 // It returns false if iteration was stopped due to a callback return false or
 // true if it iterated all items.
 func (me Prefix) walkAddresses(callback func(Address) bool) bool {
-	for a := me.Network().addr.Uint32(); a <= me.Broadcast().addr.Uint32(); a++ {
+	last := me.Broadcast().addr.Uint32()
+	for a := me.Network().addr.Uint32(); ; a++ {
 		if !callback(Address{a}) {
 			return false
 		}
+		// Not in the loop condition because `a` overflows after 255.255.255.255
+		if a == last {
+			return true
+		}
 	}
-	return true
 }
 
 // Range returns the range that includes the same addresses as the prefix
-- 
2.43.0


From 2fef56a812cb835f3dc8c70380ee32e4bec476af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 03/17] fix: Prefix.Set ignores host bits

---
 ipv4/prefix.go | 3 +++
 ipv6/prefix.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/prefix.go b/ipv4/prefix.go
index 9f44781..2d1d4b9 100644
--- a/ipv4/prefix.go
+++ b/ipv4/prefix.go
@@ -251,6 +251,9 @@ func (me Prefix) Halves() (a, b Prefix) {
 // Set returns the set that includes the same addresses as the prefix
 // It ignores any bits set in the host part of the address.
 func (me Prefix) Set() Set {
+	if me.Length() < addressSize {
+		me = me.Network()
+	}
 	return Set{
 		trie: setNodeFromPrefix(me),
 	}
diff --git a/ipv6/prefix.go b/ipv6/prefix.go
index 6a87a8c..81412ff 100644
--- a/ipv6/prefix.go
+++ b/ipv6/prefix.go
@@ -228,6 +228,9 @@ func (me Prefix) Halves() (a, b Prefix) {
 // Set returns the set that includes the same addresses as the prefix
 // It ignores any bits set in the host part of the address.
 func (me Prefix) Set() Set {
+	if me.Length() < addressSize {
+		me = me.Network()
+	}
 	return Set{
 		trie: setNodeFromPrefix(me),
 	}
-- 
2.43.0


From f06dea46067dcd054692da3a1a3b941e2a59cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 04/17] fix: Aggregate keeps more specific entries and drops
 redundant ones when merging siblings

---
 ipv4/node.go | 27 +++++++++++++++++++++++++--
 ipv6/node.go | 27 +++++++++++++++++++++++++--
 2 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 4266026..9dd2427 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -744,6 +744,21 @@ func (left *trieNode) Diff(right *trieNode, handler trieDiffHandler, eq comparat
 	})
 }
 
+// deactivate returns the trie without the entry of its root node, leaving its
+// descendants in place.
+func (me *trieNode) deactivate() *trieNode {
+	if me.children[0] == nil {
+		return me.children[1]
+	}
+	if me.children[1] == nil {
+		return me.children[0]
+	}
+	return me.copyMutate(func(n *trieNode) {
+		n.isActive = false
+		n.Data = nil
+	})
+}
+
 type umbrella struct {
 	Data interface{}
 }
@@ -801,9 +816,17 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	}(children[0], children[1])
 
 	if childrenAggregate {
-		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// It could be redundant with the parent now
+		isActive = parentUmbrella == nil || !eq(parentUmbrella.Data, data)
+		if !isActive {
+			data = nil
+		}
+		// The children's own descendants are still needed
+		children = [2]*trieNode{
+			children[0].deactivate(),
+			children[1].deactivate(),
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index fe642b1..8ab648b 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -740,6 +740,21 @@ func (left *trieNode) Diff(right *trieNode, handler trieDiffHandler, eq comparat
 	})
 }
 
+// deactivate returns the trie without the entry of its root node, leaving its
+// descendants in place.
+func (me *trieNode) deactivate() *trieNode {
+	if me.children[0] == nil {
+		return me.children[1]
+	}
+	if me.children[1] == nil {
+		return me.children[0]
+	}
+	return me.copyMutate(func(n *trieNode) {
+		n.isActive = false
+		n.Data = nil
+	})
+}
+
 type umbrella struct {
 	Data interface{}
 }
@@ -797,9 +812,17 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	}(children[0], children[1])
 
 	if childrenAggregate {
-		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// It could be redundant with the parent now
+		isActive = parentUmbrella == nil || !eq(parentUmbrella.Data, data)
+		if !isActive {
+			data = nil
+		}
+		// The children's own descendants are still needed
+		children = [2]*trieNode{
+			children[0].deactivate(),
+			children[1].deactivate(),
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From 45da4b0d84221cc747f192680a9c167c8bcee90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 05/17] fix: Table.Aggregate keeps the comparator

---
 ipv4/table.go | 6 +-----
 ipv6/table.go | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/ipv4/table.go b/ipv4/table.go
index 95773e2..632d8c6 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -218,11 +218,7 @@ func (me Table[T]) LongestMatch(searchPrefix PrefixI) (value T, found bool, pref
 // neighboring routers who receive routes aggregated differently from different
 // peers.
 func (me Table[T]) Aggregate() Table[T] {
-	return Table[T]{
-		tableX{
-			trie: me.t.trie.Aggregate(me.t.eq),
-		},
-	}
+	return Table[T]{me.t.Aggregate()}
 }
 
 // Walk invokes the given callback function for each prefix/value pair in
diff --git a/ipv6/table.go b/ipv6/table.go
index 81889d2..d525c5d 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -218,11 +218,7 @@ func (me Table[T]) LongestMatch(searchPrefix PrefixI) (value T, found bool, pref
 // neighboring routers who receive routes aggregated differently from different
 // peers.
 func (me Table[T]) Aggregate() Table[T] {
-	return Table[T]{
-		tableX{
-			trie: me.t.trie.Aggregate(me.t.eq),
-		},
-	}
+	return Table[T]{me.t.Aggregate()}
 }
 
 // Walk invokes the given callback function for each prefix/value pair in
-- 
2.43.0


From a76a3c688262b94adcb4abccb60a7deb8fa43615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 06/17] fix: don't pass the data of inactive nodes to
 comparators and mappers

---
 ipv4/node.go | 10 ++++++----
 ipv6/node.go | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 9dd2427..fac0196 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -772,7 +772,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
@@ -853,9 +853,11 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
diff --git a/ipv6/node.go b/ipv6/node.go
index 8ab648b..8f6c779 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -768,7 +768,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
@@ -849,9 +849,11 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
-- 
2.43.0


From 479f80da3a1625bb0f7ee592d01fcb66097ff45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 07/17] fix: Table_.Remove returns false if there is no entry
 for the prefix

---
 ipv4/node.go | 3 +++
 ipv6/node.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index fac0196..1c0b6d1 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -496,6 +496,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
diff --git a/ipv6/node.go b/ipv6/node.go
index 8f6c779..19a6559 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -492,6 +492,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
-- 
2.43.0


From 8e51705dd21bf54a85ee605f1efcfbdfe42433c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 08/17] fix: Diff visits disjoint prefixes in order when the
 left one is longer

---
 ipv4/node.go | 5 +++--
 ipv6/node.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 1c0b6d1..c98a58b 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -609,9 +609,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -671,7 +672,7 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
+		if (child == 1) == reversed { // NOT ((child == 1) XOR reversed)
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
diff --git a/ipv6/node.go b/ipv6/node.go
index 19a6559..8df4b15 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -605,9 +605,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -667,7 +668,7 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
+		if (child == 1) == reversed { // NOT ((child == 1) XOR reversed)
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
-- 
2.43.0


From 27fc1924277c977d773d8c76904b076c01c5f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 09/17] fix: FindAvailablePrefix accepts nil and rejects
 invalid lengths

---
 ipv4/set.go | 6 ++++++
 ipv6/set.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index 3cd3c42..7d67601 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -346,6 +346,12 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if uint32(addressSize) < length {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
diff --git a/ipv6/set.go b/ipv6/set.go
index ae95cb3..69e1150 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -334,6 +334,12 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if uint32(addressSize) < length {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
-- 
2.43.0


From 414eee8ee2ce60472034c0c954568ec078a71f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 10/17] fix: values which are not comparable with == don't
 cause a panic

---
 ipv4/node.go | 52 +++++++++++++++++++++++++++++++++-------------------
 ipv6/node.go | 52 +++++++++++++++++++++++++++++++++-------------------
 2 files changed, 66 insertions(+), 38 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index c98a58b..7de956d 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -122,11 +122,18 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	}
 	doppelganger := &trieNode{}
 	*doppelganger = *me
-	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	return doppelganger.mutate(mutator)
+}
+
+// withChild returns the node with the given child replaced, which is the node
+// itself if that is the child it already has.
+func (me *trieNode) withChild(child int, newChild *trieNode) *trieNode {
+	if me.children[child] == newChild {
 		return me
 	}
-	return mutated
+	return me.copyMutate(func(n *trieNode) {
+		n.children[child] = newChild
+	})
 }
 
 type comparator func(a, b interface{}) bool
@@ -185,9 +192,7 @@ func (me *trieNode) GetOrInsert(searchKey Prefix, data interface{}) (head, resul
 		var newChild *trieNode
 		newChild, result = me.children[child].GetOrInsert(searchKey, data)
 
-		head = me.copyMutate(func(n *trieNode) {
-			n.children[child] = newChild
-		})
+		head = me.withChild(child, newChild)
 		return
 	}
 
@@ -411,6 +416,9 @@ func (me *trieNode) insert(node *trieNode, opts insertOpts) (newHead *trieNode,
 		if err != nil {
 			return me, err
 		}
+		if newChild == me.children[child] {
+			return me, nil
+		}
 		newNode := me.copyMutate(func(n *trieNode) {
 			n.children[child] = newChild
 			if opts.flatten {
@@ -541,10 +549,7 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 			// Promote the other child up
 			return me.children[reverseChild(child)], nil
 		}
-		newNode := me.copyMutate(func(n *trieNode) {
-			n.children[child] = newChild
-		})
-		return newNode, nil
+		return me.withChild(child, newChild), nil
 
 	case compareIsContained:
 		if opts.flatten {
@@ -856,16 +861,25 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
+	if me == nil {
+		return nil
+	}
+	data, same := me.Data, true
+	if me.isActive {
+		data = mapper(me.Prefix, me.Data)
+		same = eq(me.Data, data)
+	}
+	children := [2]*trieNode{
+		me.children[0].Map(mapper, eq),
+		me.children[1].Map(mapper, eq),
+	}
+	if same && children == me.children {
+		return me
+	}
 	return me.copyMutate(func(n *trieNode) {
-		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
-			}
-		}
-		n.children = [2]*trieNode{
-			me.children[0].Map(mapper, eq),
-			me.children[1].Map(mapper, eq),
+		if !same {
+			n.Data = data
 		}
+		n.children = children
 	})
 }
diff --git a/ipv6/node.go b/ipv6/node.go
index 8df4b15..add1319 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -121,11 +121,18 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	}
 	doppelganger := &trieNode{}
 	*doppelganger = *me
-	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	return doppelganger.mutate(mutator)
+}
+
+// withChild returns the node with the given child replaced, which is the node
+// itself if that is the child it already has.
+func (me *trieNode) withChild(child int, newChild *trieNode) *trieNode {
+	if me.children[child] == newChild {
 		return me
 	}
-	return mutated
+	return me.copyMutate(func(n *trieNode) {
+		n.children[child] = newChild
+	})
 }
 
 type comparator func(a, b interface{}) bool
@@ -184,9 +191,7 @@ func (me *trieNode) GetOrInsert(searchKey Prefix, data interface{}) (head, resul
 		var newChild *trieNode
 		newChild, result = me.children[child].GetOrInsert(searchKey, data)
 
-		head = me.copyMutate(func(n *trieNode) {
-			n.children[child] = newChild
-		})
+		head = me.withChild(child, newChild)
 		return
 	}
 
@@ -407,6 +412,9 @@ func (me *trieNode) insert(node *trieNode, opts insertOpts) (newHead *trieNode,
 		if err != nil {
 			return me, err
 		}
+		if newChild == me.children[child] {
+			return me, nil
+		}
 		newNode := me.copyMutate(func(n *trieNode) {
 			n.children[child] = newChild
 			if opts.flatten {
@@ -537,10 +545,7 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 			// Promote the other child up
 			return me.children[reverseChild(child)], nil
 		}
-		newNode := me.copyMutate(func(n *trieNode) {
-			n.children[child] = newChild
-		})
-		return newNode, nil
+		return me.withChild(child, newChild), nil
 
 	case compareIsContained:
 		if opts.flatten {
@@ -852,16 +857,25 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
+	if me == nil {
+		return nil
+	}
+	data, same := me.Data, true
+	if me.isActive {
+		data = mapper(me.Prefix, me.Data)
+		same = eq(me.Data, data)
+	}
+	children := [2]*trieNode{
+		me.children[0].Map(mapper, eq),
+		me.children[1].Map(mapper, eq),
+	}
+	if same && children == me.children {
+		return me
+	}
 	return me.copyMutate(func(n *trieNode) {
-		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
-			}
-		}
-		n.children = [2]*trieNode{
-			me.children[0].Map(mapper, eq),
-			me.children[1].Map(mapper, eq),
+		if !same {
+			n.Data = data
 		}
+		n.children = children
 	})
 }
-- 
2.43.0


From 0c7690ab6fef069f39a78891f756cdedfc77701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 11/17] fix: custom comparators can be used with nil interface
 values

---
 ipv4/table.go | 5 ++++-
 ipv6/table.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipv4/table.go b/ipv4/table.go
index 632d8c6..2ac53e1 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -28,7 +28,10 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// These are nil if T is an interface type and the value is nil
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
diff --git a/ipv6/table.go b/ipv6/table.go
index d525c5d..582456b 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -28,7 +28,10 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// These are nil if T is an interface type and the value is nil
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
-- 
2.43.0


From 1bfb02c0d2b1d807f55c0dbf971393d1a70f5b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 12/17] fix: concurrent writes which are undone before the swap
 are detected

---
 ipv4/set.go    | 22 ++++++++++++++++------
 ipv4/tablex.go | 34 ++++++++++++++++++++++------------
 ipv6/set.go    | 22 ++++++++++++++++------
 ipv6/tablex.go | 34 ++++++++++++++++++++++------------
 4 files changed, 76 insertions(+), 36 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 7d67601..3888650 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -33,10 +33,20 @@ func (me Set_) Set() Set {
 	}
 }
 
-// mutate should be called by any method that modifies the set in any way
+// mutate is like update for a mutator that doesn't need the current trie
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.update(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// update should be called by any method that modifies the set in any way. The
+// mutator must derive the new trie from the one it is given. If it read the
+// current one again, it could see a concurrent modification that is undone
+// before the swap and hence not detected.
+func (me Set_) update(mutator func(trie *setNode) (ok bool, newNode *setNode)) {
 	oldNode := me.s.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -53,8 +63,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.update(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Union(other.Set().trie)
 	})
 }
 
@@ -68,8 +78,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.update(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 8e30234..81959d5 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -63,10 +63,20 @@ func (me tableX_) NumEntries() int64 {
 	return me.m.NumEntries()
 }
 
-// mutate should be called by any method that modifies the table in any way
+// mutate is like update for a mutator that doesn't need the current trie
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.update(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// update should be called by any method that modifies the table in any way. The
+// mutator must derive the new trie from the one it is given. If it read the
+// current one again, it could see a concurrent modification that is undone
+// before the swap and hence not detected.
+func (me tableX_) update(mutator func(trie *trieNode) (ok bool, node *trieNode)) {
 	oldNode := me.m.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +95,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = trie.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +117,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = trie.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +137,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.update(func(trie *trieNode) (bool, *trieNode) {
+		return true, trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +164,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = trie.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +195,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = trie.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
diff --git a/ipv6/set.go b/ipv6/set.go
index 69e1150..043e949 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -49,10 +49,20 @@ func (me Set) Build(builder func(Set_) bool) Set {
 	return me
 }
 
-// mutate should be called by any method that modifies the set in any way
+// mutate is like update for a mutator that doesn't need the current trie
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.update(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// update should be called by any method that modifies the set in any way. The
+// mutator must derive the new trie from the one it is given. If it read the
+// current one again, it could see a concurrent modification that is undone
+// before the swap and hence not detected.
+func (me Set_) update(mutator func(trie *setNode) (ok bool, newNode *setNode)) {
 	oldNode := me.s.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -69,8 +79,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.update(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Union(other.Set().trie)
 	})
 }
 
@@ -84,8 +94,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.update(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 9327206..b4386fe 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -63,10 +63,20 @@ func (me tableX_) NumEntries() int64 {
 	return me.m.NumEntries()
 }
 
-// mutate should be called by any method that modifies the table in any way
+// mutate is like update for a mutator that doesn't need the current trie
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.update(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// update should be called by any method that modifies the table in any way. The
+// mutator must derive the new trie from the one it is given. If it read the
+// current one again, it could see a concurrent modification that is undone
+// before the swap and hence not detected.
+func (me tableX_) update(mutator func(trie *trieNode) (ok bool, node *trieNode)) {
 	oldNode := me.m.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +95,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = trie.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +117,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = trie.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +137,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.update(func(trie *trieNode) (bool, *trieNode) {
+		return true, trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +164,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = trie.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +195,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.update(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = trie.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
-- 
2.43.0


From 7deb34bc52588341e45eb5fe40833f5ef2e31297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 13/17] fix: reads which are concurrent with writes load the
 trie atomically

---
 ipv4/set.go           | 18 +++++++++---------
 ipv4/tablex.go        | 13 ++++++++-----
 ipv4/unsafe_atomic.go | 20 ++++++++++++++++++++
 ipv6/set.go           | 18 +++++++++---------
 ipv6/tablex.go        | 13 ++++++++-----
 ipv6/unsafe_atomic.go | 20 ++++++++++++++++++++
 6 files changed, 74 insertions(+), 28 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 3888650..ba2a453 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -29,7 +29,7 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
@@ -45,7 +45,7 @@ func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
 // current one again, it could see a concurrent modification that is undone
 // before the swap and hence not detected.
 func (me Set_) update(mutator func(trie *setNode) (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
+	oldNode := loadSetNodePtr(&me.s.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
@@ -93,7 +93,7 @@ func (me Set_) NumAddresses() int64 {
 	if me.s == nil {
 		return 0
 	}
-	return me.s.NumAddresses()
+	return me.Set().NumAddresses()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -101,7 +101,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().NumAddresses() == 0
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -109,11 +109,11 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.NumAddresses() == 0
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
-	return me.s.isValid()
+	return me.Set().isValid()
 }
 
 // Union returns a new fixed set with all addresses from both sets
@@ -124,7 +124,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -135,7 +135,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -147,7 +147,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 81959d5..b28dcf0 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -60,7 +60,7 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate is like update for a mutator that doesn't need the current trie
@@ -75,7 +75,7 @@ func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
 // current one again, it could see a concurrent modification that is undone
 // before the swap and hence not detected.
 func (me tableX_) update(mutator func(trie *trieNode) (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
+	oldNode := loadTrieNodePtr(&me.m.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
@@ -150,7 +150,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -180,7 +180,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -210,7 +210,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv4/unsafe_atomic.go b/ipv4/unsafe_atomic.go
index 1b84ca7..456f759 100644
--- a/ipv4/unsafe_atomic.go
+++ b/ipv4/unsafe_atomic.go
@@ -24,3 +24,23 @@ func swapSetNodePtr(ptr **setNode, old, new *setNode) bool {
 		unsafe.Pointer(new),
 	)
 }
+
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
diff --git a/ipv6/set.go b/ipv6/set.go
index 043e949..409337c 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -30,7 +30,7 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
@@ -61,7 +61,7 @@ func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
 // current one again, it could see a concurrent modification that is undone
 // before the swap and hence not detected.
 func (me Set_) update(mutator func(trie *setNode) (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
+	oldNode := loadSetNodePtr(&me.s.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
@@ -104,7 +104,7 @@ func (me Set_) IsEmpty() bool {
 	if me.s == nil {
 		return true
 	}
-	return me.s.IsEmpty()
+	return me.Set().IsEmpty()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -112,7 +112,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().IsEmpty()
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -120,11 +120,11 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.IsEmpty()
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
-	return me.s.isValid()
+	return me.Set().isValid()
 }
 
 // Union returns a new fixed set with all addresses from both sets
@@ -135,7 +135,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -146,7 +146,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -158,7 +158,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index b4386fe..dc01f50 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -60,7 +60,7 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate is like update for a mutator that doesn't need the current trie
@@ -75,7 +75,7 @@ func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
 // current one again, it could see a concurrent modification that is undone
 // before the swap and hence not detected.
 func (me tableX_) update(mutator func(trie *trieNode) (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
+	oldNode := loadTrieNodePtr(&me.m.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
@@ -150,7 +150,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -180,7 +180,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -210,7 +210,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv6/unsafe_atomic.go b/ipv6/unsafe_atomic.go
index f72d6bb..afc2c87 100644
--- a/ipv6/unsafe_atomic.go
+++ b/ipv6/unsafe_atomic.go
@@ -24,3 +24,23 @@ func swapSetNodePtr(ptr **setNode, old, new *setNode) bool {
 		unsafe.Pointer(new),
 	)
 }
+
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
-- 
2.43.0


From df2a69728617520a9661ba165dd1902d7766cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 14/17] fix: Set.NumPrefixes reports an invalid length

---
 ipv4/set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index ba2a453..a6020d3 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -261,7 +261,11 @@ func (me Set) NumPrefixes(length uint32) (count uint64, err error) {
 	// NOTE This could be done more efficiently with its own recursive
 	// implementation that stops descending when the prefixes are too small.
 	me.WalkPrefixes(func(p Prefix) bool {
-		c, _ := p.NumPrefixes(length)
+		c, e := p.NumPrefixes(length)
+		if e != nil {
+			err = e
+			return false
+		}
 		count += c
 		return true
 	})
-- 
2.43.0


From 220f31cae279423d51afe3b2bbfa9d99a1967935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 15/17] fix: Range.Set is exact when first and last differ in
 all of the lowest bits

---
 ipv4/setnode.go | 2 +-
 ipv6/setnode.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 6e3c2a3..4ab61a8 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -27,7 +27,7 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := bits.LeadingZeros32(xor)
 
-	if numCommonBits == bits.OnesCount32(^xor) {
+	if numCommonBits == bits.OnesCount32(^xor) && r.first.ui&xor == 0 {
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 15d788a..5962b48 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -26,7 +26,7 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := xor.leadingZeros()
 
-	if numCommonBits == xor.complement().onesCount() {
+	if numCommonBits == xor.complement().onesCount() && r.first.ui.and(xor) == (uint128{}) {
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
-- 
2.43.0


From cdddeeb1790bea3ccc5c982e0b90580fa7e5db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 16/17] fix: ipv6 addresses which are IPv4-mapped are written
 and read as IPv6

Address.String wrote ::ffff:1.2.3.4 as 1.2.3.4, which isn't IPv6 notation,
and AddressFromString rejected ::ffff:1.2.3.4.
---
 ipv6/address.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ipv6/address.go b/ipv6/address.go
index 4f3b609..ae187d8 100644
--- a/ipv6/address.go
+++ b/ipv6/address.go
@@ -3,6 +3,8 @@ package ipv6
 import (
 	"fmt"
 	"net"
+	"net/netip"
+	"strings"
 )
 
 const (
@@ -53,8 +55,8 @@ func AddressFromString(address string) (Address, error) {
 		return Address{}, fmt.Errorf("failed to parse address: %s", address)
 	}
 
-	netIPv4 := netIP.To4()
-	if netIPv4 != nil {
+	// To4() can't be used to tell, it accepts IPv4-mapped IPv6 addresses too
+	if !strings.Contains(address, ":") {
 		return Address{}, fmt.Errorf("address is not IPv6: %s", address)
 	}
 
@@ -100,7 +102,9 @@ func (me Address) Set() Set {
 
 // String returns a string representing the address in IPv6 notation
 func (me Address) String() string {
-	return me.ToNetIP().String()
+	// net.IP writes an IPv4-mapped IPv6 address as if it were an IPv4 address
+	addr, _ := netip.AddrFromSlice(me.ToNetIP())
+	return addr.String()
 }
 
 // NumBits returns the size of an address (always 128)
-- 
2.43.0


From 03721e91a6361b09443436e47e6299e5cce457d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 17/17] fix: ipv4.AddressFromString rejects IPv4-mapped IPv6
 addresses

It accepted ::ffff:1.2.3.4, which isn't dotted-quad notation. PrefixFromString
rejects it already.
---
 ipv4/address.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipv4/address.go b/ipv4/address.go
index 85d368c..9ab9073 100644
--- a/ipv4/address.go
+++ b/ipv4/address.go
@@ -3,6 +3,7 @@ package ipv4
 import (
 	"fmt"
 	"net"
+	"strings"
 )
 
 const (
@@ -49,8 +50,9 @@ func AddressFromString(address string) (Address, error) {
 		return Address{}, fmt.Errorf("failed to parse address: %s", address)
 	}
 
+	// To4() isn't enough to tell, it accepts IPv4-mapped IPv6 addresses too
 	netIPv4 := netIP.To4()
-	if netIPv4 == nil {
+	if netIPv4 == nil || strings.Contains(address, ":") {
 		return Address{}, fmt.Errorf("address is not IPv4: %s", address)
 	}
 
-- 
2.43.0

