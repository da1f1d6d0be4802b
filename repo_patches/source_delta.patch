From f73619eee4691c14f8d7d860911123a1334032d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 01/16] fix: Range.Set() covered extra addresses for ranges
 like [x.1, x.2]

A range whose ends differ in all of the trailing bits is only a single prefix
if those bits are zeroes in the first address.
---
 ipv4/setnode.go | 3 ++-
 ipv6/setnode.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 6e3c2a3..d963c4d 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -27,7 +27,8 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := bits.LeadingZeros32(xor)
 
-	if numCommonBits == bits.OnesCount32(^xor) {
+	if numCommonBits == bits.OnesCount32(^xor) && r.first.ui&xor == 0 {
+		// The ends differ in all of the remaining bits and those are all zeroes in first (ones in last).
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 15d788a..8452fcd 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -26,7 +26,8 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := xor.leadingZeros()
 
-	if numCommonBits == xor.complement().onesCount() {
+	if numCommonBits == xor.complement().onesCount() && r.first.ui.and(xor) == (uint128{}) {
+		// The ends differ in all of the remaining bits and those are all zeroes in first (ones in last).
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
-- 
2.43.0


From c94c00cb91559003d15da4156d552b7ab7115aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 02/16] fix: Range.Plus when the first range goes to the end of
 the IP space

next() overflows to zero in that case and the ranges were reported as disjoint.
---
 ipv4/range.go | 3 ++-
 ipv6/range.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipv4/range.go b/ipv4/range.go
index 358d71f..1e9de70 100644
--- a/ipv4/range.go
+++ b/ipv4/range.go
@@ -84,7 +84,8 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// a.next() overflows if a goes to the end of the IP space but then nothing comes after a
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
diff --git a/ipv6/range.go b/ipv6/range.go
index b21c533..6f965c8 100644
--- a/ipv6/range.go
+++ b/ipv6/range.go
@@ -78,7 +78,8 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// a.next() overflows if a goes to the end of the IP space but then nothing comes after a
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
-- 
2.43.0


From e9127cc27066e46ed6ac46e97ff7f553e4651726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 03/16] fix: WalkAddresses never terminated at 255.255.255.255

---
 ipv4/prefix.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipv4/prefix.go b/ipv4/prefix.go
index fef78d1..7088ad4 100644
--- a/ipv4/prefix.go
+++ b/ipv4/prefix.go
@@ -211,12 +211,16 @@ func (me Prefix) Uint32() (address, mask uint32) {
 // It returns false if iteration was stopped due to a callback return false or
 // true if it iterated all items.
 func (me Prefix) walkAddresses(callback func(Address) bool) bool {
-	for a := me.Network().addr.Uint32(); a <= me.Broadcast().addr.Uint32(); a++ {
+	last := me.Broadcast().addr.Uint32()
+	for a := me.Network().addr.Uint32(); ; a++ {
 		if !callback(Address{a}) {
 			return false
 		}
+		// Check this before incrementing which would overflow at the end of the IP space
+		if a == last {
+			return true
+		}
 	}
-	return true
 }
 
 // Range returns the range that includes the same addresses as the prefix
-- 
2.43.0


From f10c78cc34ae6940fd88bee8b61b681dc514259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 04/16] fix: sets with the same addresses weren't Equal if
 built from prefixes with host bits

---
 ipv4/setnode.go | 4 ++++
 ipv6/setnode.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index d963c4d..4da240d 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -13,6 +13,10 @@ import (
 type setNode trieNode
 
 func setNodeFromPrefix(p Prefix) *setNode {
+	if p.Length() < addressSize {
+		// Host bits are irrelevant to the set, don't let them make otherwise equal sets different
+		p = p.Network()
+	}
 	return &setNode{
 		isActive: true,
 		Prefix:   p,
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 8452fcd..beedf07 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -12,6 +12,10 @@ import (
 type setNode trieNode
 
 func setNodeFromPrefix(p Prefix) *setNode {
+	if p.Length() < addressSize {
+		// Host bits are irrelevant to the set, don't let them make otherwise equal sets different
+		p = p.Network()
+	}
 	return &setNode{
 		isActive: true,
 		Prefix:   p,
-- 
2.43.0


From 29ce67111e231d8ed3e82df4d32bb8dbd923fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 05/16] fix: FindAvailablePrefix with an invalid length or a
 nil reserved set

---
 ipv4/set.go | 6 ++++++
 ipv6/set.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index 3cd3c42..7d67601 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -346,6 +346,12 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if uint32(addressSize) < length {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
diff --git a/ipv6/set.go b/ipv6/set.go
index ae95cb3..69e1150 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -334,6 +334,12 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if uint32(addressSize) < length {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
-- 
2.43.0


From a35978d4579036dd041311ea7c3ae879aa7a04ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 06/16] fix: Diff visited disjoint prefixes out of order

---
 ipv4/node.go | 5 +++--
 ipv6/node.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 4266026..3aae79c 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -606,9 +606,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -668,7 +669,7 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
+		if (child == 0) != reversed { // (child == 0) XOR reversed
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
diff --git a/ipv6/node.go b/ipv6/node.go
index fe642b1..2e3645f 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -602,9 +602,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -664,7 +665,7 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
+		if (child == 0) != reversed { // (child == 0) XOR reversed
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
-- 
2.43.0


From 1521d1a7a14784db8056016540a2b96b2d8e6e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 07/16] fix: Aggregate dropped entries below combined prefixes

---
 ipv4/node.go | 21 ++++++++++++++++++++-
 ipv6/node.go | 21 ++++++++++++++++++++-
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 3aae79c..4ef5a79 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -745,6 +745,21 @@ func (left *trieNode) Diff(right *trieNode, handler trieDiffHandler, eq comparat
 	})
 }
 
+// deactivate returns a trie with all of the entries in this one except for the
+// one at its root.
+func (me *trieNode) deactivate() *trieNode {
+	if me.children[0] == nil {
+		return me.children[1]
+	}
+	if me.children[1] == nil {
+		return me.children[0]
+	}
+	return me.copyMutate(func(n *trieNode) {
+		n.isActive = false
+		n.Data = nil
+	})
+}
+
 type umbrella struct {
 	Data interface{}
 }
@@ -804,7 +819,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// The children are now redundant but more specific entries below them aren't
+		children = [2]*trieNode{
+			children[0].deactivate(),
+			children[1].deactivate(),
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index 2e3645f..a0dcd86 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -741,6 +741,21 @@ func (left *trieNode) Diff(right *trieNode, handler trieDiffHandler, eq comparat
 	})
 }
 
+// deactivate returns a trie with all of the entries in this one except for the
+// one at its root.
+func (me *trieNode) deactivate() *trieNode {
+	if me.children[0] == nil {
+		return me.children[1]
+	}
+	if me.children[1] == nil {
+		return me.children[0]
+	}
+	return me.copyMutate(func(n *trieNode) {
+		n.isActive = false
+		n.Data = nil
+	})
+}
+
 type umbrella struct {
 	Data interface{}
 }
@@ -800,7 +815,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// The children are now redundant but more specific entries below them aren't
+		children = [2]*trieNode{
+			children[0].deactivate(),
+			children[1].deactivate(),
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From 6e23c5d85c3b438c8f9d6d4a626af484f3755767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 08/16] fix: Aggregate kept combined entries covered by a
 parent with the same value

---
 ipv4/node.go | 5 +++++
 ipv6/node.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index 4ef5a79..6347c6b 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -824,6 +824,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 			children[0].deactivate(),
 			children[1].deactivate(),
 		}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			// The combined entry is covered by the umbrella
+			isActive = false
+			data = nil
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index a0dcd86..389fb53 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -820,6 +820,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 			children[0].deactivate(),
 			children[1].deactivate(),
 		}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			// The combined entry is covered by the umbrella
+			isActive = false
+			data = nil
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From f330d5d4dbed7d4039f8842aef958b5cecedbf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 09/16] fix: Aggregate dropped the comparator from Table

---
 ipv4/table.go | 3 ++-
 ipv6/table.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipv4/table.go b/ipv4/table.go
index 95773e2..c2d8cba 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -220,7 +220,8 @@ func (me Table[T]) LongestMatch(searchPrefix PrefixI) (value T, found bool, pref
 func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
-			trie: me.t.trie.Aggregate(me.t.eq),
+			me.t.trie.Aggregate(me.t.eq),
+			me.t.eq,
 		},
 	}
 }
diff --git a/ipv6/table.go b/ipv6/table.go
index 81889d2..6077b15 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -220,7 +220,8 @@ func (me Table[T]) LongestMatch(searchPrefix PrefixI) (value T, found bool, pref
 func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
-			trie: me.t.trie.Aggregate(me.t.eq),
+			me.t.trie.Aggregate(me.t.eq),
+			me.t.eq,
 		},
 	}
 }
-- 
2.43.0


From b000883b7ce737338183f3dba8d620363df36786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 10/16] fix: Map and Aggregate passed nodes without a value to
 the mapper and comparator

---
 ipv4/node.go | 15 ++++++++++-----
 ipv6/node.go | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 6347c6b..d8ecd83 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -773,13 +773,15 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		// Inactive nodes don't have a value to compare
+		sameData := isActive && me.isActive && eq(data, me.Data)
+		if isActive == me.isActive && children == me.children && (!isActive || sameData) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
 			n.isActive = isActive
 			if isActive {
-				if n.Data == nil || !eq(n.Data, data) {
+				if !sameData {
 					n.Data = data
 				}
 			} else {
@@ -855,9 +857,12 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		// Inactive nodes don't have a value to map
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
diff --git a/ipv6/node.go b/ipv6/node.go
index 389fb53..b2f2236 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -769,13 +769,15 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		// Inactive nodes don't have a value to compare
+		sameData := isActive && me.isActive && eq(data, me.Data)
+		if isActive == me.isActive && children == me.children && (!isActive || sameData) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
 			n.isActive = isActive
 			if isActive {
-				if n.Data == nil || !eq(n.Data, data) {
+				if !sameData {
 					n.Data = data
 				}
 			} else {
@@ -851,9 +853,12 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		// Inactive nodes don't have a value to map
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
-- 
2.43.0


From 5063fc0aa2f6270b42f26e0eef8b4ae744ce27ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 11/16] fix: panic in copyMutate if values aren't comparable
 with ==

---
 ipv4/node.go | 45 ++++++++++++++++++++++++++++++++-------------
 ipv6/node.go | 45 ++++++++++++++++++++++++++++++++-------------
 2 files changed, 64 insertions(+), 26 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index d8ecd83..fb07394 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -116,14 +116,25 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
-func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
+// copyMutate returns a mutated copy of the node or the node itself if the
+// mutator doesn't change anything. The mutator must return true if it changes
+// Data. It isn't compared because the values might not be comparable with ==
+func (me *trieNode) copyMutate(mutator func(*trieNode) (dataChanged bool)) *trieNode {
 	if me == nil {
 		return nil
 	}
 	doppelganger := &trieNode{}
 	*doppelganger = *me
-	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	var dataChanged bool
+	mutated := doppelganger.mutate(func(n *trieNode) {
+		dataChanged = mutator(n)
+	})
+	if !dataChanged &&
+		mutated.Prefix == me.Prefix &&
+		mutated.size == me.size &&
+		mutated.h == me.h &&
+		mutated.isActive == me.isActive &&
+		mutated.children == me.children {
 		return me
 	}
 	return mutated
@@ -185,8 +196,9 @@ func (me *trieNode) GetOrInsert(searchKey Prefix, data interface{}) (head, resul
 		var newChild *trieNode
 		newChild, result = me.children[child].GetOrInsert(searchKey, data)
 
-		head = me.copyMutate(func(n *trieNode) {
+		head = me.copyMutate(func(n *trieNode) bool {
 			n.children[child] = newChild
+			return false
 		})
 		return
 	}
@@ -411,11 +423,12 @@ func (me *trieNode) insert(node *trieNode, opts insertOpts) (newHead *trieNode,
 		if err != nil {
 			return me, err
 		}
-		newNode := me.copyMutate(func(n *trieNode) {
+		newNode := me.copyMutate(func(n *trieNode) bool {
 			n.children[child] = newChild
 			if opts.flatten {
 				n.flatten()
 			}
+			return false
 		})
 		return newNode, nil
 
@@ -506,9 +519,10 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		}
 
 		// The two children are disjoint so keep this inactive node.
-		newNode := me.copyMutate(func(n *trieNode) {
+		newNode := me.copyMutate(func(n *trieNode) bool {
 			n.isActive = false
 			n.Data = nil
+			return true
 		})
 		return newNode, nil
 
@@ -538,8 +552,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 			// Promote the other child up
 			return me.children[reverseChild(child)], nil
 		}
-		newNode := me.copyMutate(func(n *trieNode) {
+		newNode := me.copyMutate(func(n *trieNode) bool {
 			n.children[child] = newChild
+			return false
 		})
 		return newNode, nil
 
@@ -754,9 +769,10 @@ func (me *trieNode) deactivate() *trieNode {
 	if me.children[1] == nil {
 		return me.children[0]
 	}
-	return me.copyMutate(func(n *trieNode) {
+	return me.copyMutate(func(n *trieNode) bool {
 		n.isActive = false
 		n.Data = nil
+		return true
 	})
 }
 
@@ -778,7 +794,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		if isActive == me.isActive && children == me.children && (!isActive || sameData) {
 			return me
 		}
-		return me.copyMutate(func(n *trieNode) {
+		return me.copyMutate(func(n *trieNode) bool {
 			n.isActive = isActive
 			if isActive {
 				if !sameData {
@@ -788,6 +804,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 				n.Data = nil
 			}
 			n.children = children
+			return isActive && !sameData
 		})
 	}
 
@@ -856,17 +873,19 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
+	return me.copyMutate(func(n *trieNode) (dataChanged bool) {
 		// Inactive nodes don't have a value to map
 		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
+			data := mapper(me.Prefix, me.Data)
+			if !eq(me.Data, data) {
+				n.Data = data
+				dataChanged = true
 			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
 			me.children[1].Map(mapper, eq),
 		}
+		return dataChanged
 	})
 }
diff --git a/ipv6/node.go b/ipv6/node.go
index b2f2236..7fad16e 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -115,14 +115,25 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
-func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
+// copyMutate returns a mutated copy of the node or the node itself if the
+// mutator doesn't change anything. The mutator must return true if it changes
+// Data. It isn't compared because the values might not be comparable with ==
+func (me *trieNode) copyMutate(mutator func(*trieNode) (dataChanged bool)) *trieNode {
 	if me == nil {
 		return nil
 	}
 	doppelganger := &trieNode{}
 	*doppelganger = *me
-	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	var dataChanged bool
+	mutated := doppelganger.mutate(func(n *trieNode) {
+		dataChanged = mutator(n)
+	})
+	if !dataChanged &&
+		mutated.Prefix == me.Prefix &&
+		mutated.size == me.size &&
+		mutated.h == me.h &&
+		mutated.isActive == me.isActive &&
+		mutated.children == me.children {
 		return me
 	}
 	return mutated
@@ -184,8 +195,9 @@ func (me *trieNode) GetOrInsert(searchKey Prefix, data interface{}) (head, resul
 		var newChild *trieNode
 		newChild, result = me.children[child].GetOrInsert(searchKey, data)
 
-		head = me.copyMutate(func(n *trieNode) {
+		head = me.copyMutate(func(n *trieNode) bool {
 			n.children[child] = newChild
+			return false
 		})
 		return
 	}
@@ -407,11 +419,12 @@ func (me *trieNode) insert(node *trieNode, opts insertOpts) (newHead *trieNode,
 		if err != nil {
 			return me, err
 		}
-		newNode := me.copyMutate(func(n *trieNode) {
+		newNode := me.copyMutate(func(n *trieNode) bool {
 			n.children[child] = newChild
 			if opts.flatten {
 				n.flatten()
 			}
+			return false
 		})
 		return newNode, nil
 
@@ -502,9 +515,10 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		}
 
 		// The two children are disjoint so keep this inactive node.
-		newNode := me.copyMutate(func(n *trieNode) {
+		newNode := me.copyMutate(func(n *trieNode) bool {
 			n.isActive = false
 			n.Data = nil
+			return true
 		})
 		return newNode, nil
 
@@ -534,8 +548,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 			// Promote the other child up
 			return me.children[reverseChild(child)], nil
 		}
-		newNode := me.copyMutate(func(n *trieNode) {
+		newNode := me.copyMutate(func(n *trieNode) bool {
 			n.children[child] = newChild
+			return false
 		})
 		return newNode, nil
 
@@ -750,9 +765,10 @@ func (me *trieNode) deactivate() *trieNode {
 	if me.children[1] == nil {
 		return me.children[0]
 	}
-	return me.copyMutate(func(n *trieNode) {
+	return me.copyMutate(func(n *trieNode) bool {
 		n.isActive = false
 		n.Data = nil
+		return true
 	})
 }
 
@@ -774,7 +790,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		if isActive == me.isActive && children == me.children && (!isActive || sameData) {
 			return me
 		}
-		return me.copyMutate(func(n *trieNode) {
+		return me.copyMutate(func(n *trieNode) bool {
 			n.isActive = isActive
 			if isActive {
 				if !sameData {
@@ -784,6 +800,7 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 				n.Data = nil
 			}
 			n.children = children
+			return isActive && !sameData
 		})
 	}
 
@@ -852,17 +869,19 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
+	return me.copyMutate(func(n *trieNode) (dataChanged bool) {
 		// Inactive nodes don't have a value to map
 		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
+			data := mapper(me.Prefix, me.Data)
+			if !eq(me.Data, data) {
+				n.Data = data
+				dataChanged = true
 			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
 			me.children[1].Map(mapper, eq),
 		}
+		return dataChanged
 	})
 }
-- 
2.43.0


From 79b7671d16581c68b89aa1eb2850ed841b8d3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 12/16] fix: custom comparator panicked on nil values of
 interface types

---
 ipv4/table.go | 5 ++++-
 ipv6/table.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ipv4/table.go b/ipv4/table.go
index c2d8cba..7aa14ab 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -28,7 +28,10 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// A nil value is stored as a nil interface if T is an interface type
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
diff --git a/ipv6/table.go b/ipv6/table.go
index 6077b15..02ccceb 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -28,7 +28,10 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// A nil value is stored as a nil interface if T is an interface type
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
-- 
2.43.0


From 01bac17f0dc08dc36b34850eb2433b616c692597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 13/16] fix: ipv4 Set.NumPrefixes ignored invalid lengths

---
 ipv4/set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 7d67601..589f888 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -251,7 +251,11 @@ func (me Set) NumPrefixes(length uint32) (count uint64, err error) {
 	// NOTE This could be done more efficiently with its own recursive
 	// implementation that stops descending when the prefixes are too small.
 	me.WalkPrefixes(func(p Prefix) bool {
-		c, _ := p.NumPrefixes(length)
+		c, e := p.NumPrefixes(length)
+		if e != nil {
+			err = e
+			return false
+		}
 		count += c
 		return true
 	})
-- 
2.43.0


From 33e98ff4c330b1b585bae96a95417b9ee590ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 14/16] fix: Set_ and Table_ could lose a concurrent update
 without panicking

---
 ipv4/set.go    | 19 ++++++++++++++-----
 ipv4/tablex.go | 31 ++++++++++++++++++++-----------
 ipv6/set.go    | 19 ++++++++++++++-----
 ipv6/tablex.go | 31 ++++++++++++++++++++-----------
 4 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 589f888..9364937 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -35,8 +35,17 @@ func (me Set_) Set() Set {
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.mutateNode(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateNode is like mutate but passes the node to be replaced to the mutator.
+// The mutator must not read it again from the set. Otherwise, the result might
+// be based on a different one than the one that is replaced.
+func (me Set_) mutateNode(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
 	oldNode := me.s.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -53,8 +62,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.mutateNode(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Union(other.Set().trie)
 	})
 }
 
@@ -68,8 +77,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.mutateNode(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 8e30234..9e0421a 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -65,8 +65,17 @@ func (me tableX_) NumEntries() int64 {
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.mutateNode(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateNode is like mutate but passes the node to be replaced to the mutator.
+// The mutator must not read it again from the table. Otherwise, the result
+// might be based on a different one than the one that is replaced.
+func (me tableX_) mutateNode(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
 	oldNode := me.m.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +94,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = oldNode.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +116,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = oldNode.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +136,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateNode(func(oldNode *trieNode) (bool, *trieNode) {
+		return true, oldNode.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +163,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = oldNode.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +194,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = oldNode.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
diff --git a/ipv6/set.go b/ipv6/set.go
index 69e1150..7d7a1b3 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -51,8 +51,17 @@ func (me Set) Build(builder func(Set_) bool) Set {
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.mutateNode(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateNode is like mutate but passes the node to be replaced to the mutator.
+// The mutator must not read it again from the set. Otherwise, the result might
+// be based on a different one than the one that is replaced.
+func (me Set_) mutateNode(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
 	oldNode := me.s.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -69,8 +78,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.mutateNode(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Union(other.Set().trie)
 	})
 }
 
@@ -84,8 +93,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.mutateNode(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 9327206..55fe30e 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -65,8 +65,17 @@ func (me tableX_) NumEntries() int64 {
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.mutateNode(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateNode is like mutate but passes the node to be replaced to the mutator.
+// The mutator must not read it again from the table. Otherwise, the result
+// might be based on a different one than the one that is replaced.
+func (me tableX_) mutateNode(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
 	oldNode := me.m.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +94,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = oldNode.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +116,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = oldNode.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +136,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateNode(func(oldNode *trieNode) (bool, *trieNode) {
+		return true, oldNode.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +163,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = oldNode.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +194,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateNode(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = oldNode.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
-- 
2.43.0


From 7120419b605ed127f14121f7e4ce66e434062a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 15/16] fix: IPv4-mapped IPv6 addresses couldn't be parsed or
 printed as IPv6

---
 ipv6/address.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ipv6/address.go b/ipv6/address.go
index 4f3b609..9a9963e 100644
--- a/ipv6/address.go
+++ b/ipv6/address.go
@@ -3,6 +3,7 @@ package ipv6
 import (
 	"fmt"
 	"net"
+	"strings"
 )
 
 const (
@@ -53,8 +54,8 @@ func AddressFromString(address string) (Address, error) {
 		return Address{}, fmt.Errorf("failed to parse address: %s", address)
 	}
 
-	netIPv4 := netIP.To4()
-	if netIPv4 != nil {
+	// IPv4-mapped addresses, e.g. "::ffff:1.2.3.4", are IPv6
+	if !strings.Contains(address, ":") {
 		return Address{}, fmt.Errorf("address is not IPv6: %s", address)
 	}
 
@@ -100,7 +101,12 @@ func (me Address) Set() Set {
 
 // String returns a string representing the address in IPv6 notation
 func (me Address) String() string {
-	return me.ToNetIP().String()
+	netIP := me.ToNetIP()
+	if netIP.To4() != nil {
+		// net.IP formats IPv4-mapped addresses as IPv4
+		return "::ffff:" + netIP.String()
+	}
+	return netIP.String()
 }
 
 // NumBits returns the size of an address (always 128)
-- 
2.43.0


From 36b7791ff2145919b6b5b9e1295e391227a15a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 16/16] fix: Table_.Remove reported success for prefixes
 without an entry

Removing a prefix where the table only has an auxiliary (inactive) node that
joins two other entries returned true although there was no entry to remove.
---
 ipv4/node.go | 3 +++
 ipv6/node.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index fb07394..2ea8330 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -509,6 +509,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
diff --git a/ipv6/node.go b/ipv6/node.go
index 7fad16e..0d4b8a1 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -505,6 +505,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
-- 
2.43.0

