#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
SET=['ipv4/setnode.go','ipv6/setnode.go','ipv4/set.go','ipv6/set.go','ipv4/node.go','ipv6/node.go']
TAB=['ipv4/node.go','ipv6/node.go','ipv4/tablex.go','ipv6/tablex.go','ipv4/table.go','ipv6/table.go']
TRIE=[('path-compressed binary trie',"immutable nodes: prefix, active flag, size, height, two children",'ipv4/node.go, ipv6/node.go: trieNode')]
p('C01','Set union is exact',
 'For any two address sets A and B (given as an Address, Prefix, Range, Set or Set_, or nil meaning empty), A.Union(B), and A after A.Insert(B), contain an address if and only if A or B contains it.',
 ['inputs','histories'],'all pairs of sets reachable through the API, all addresses, IPv4 and IPv6',
 'The tests union a few dozen hand-picked sets; the result depends on the relative position, length and fragmentation of every pair of prefixes in two arbitrary recursive structures.',
 SET,[('recursive union over prefix relation','setNode.Union'),('prefix comparison','compare/contains'),('collapse of full siblings','trieNode.flatten')],
 ['Set.Union','Set_.Union','Set_.Insert'],TRIE)
p('C02','Set intersection is exact',
 'For any two address sets A and B, A.Intersection(B) contains an address if and only if both A and B contain it.',
 ['inputs','histories'],'all pairs of sets reachable through the API, all addresses, IPv4 and IPv6',
 'Only a handful of prefix layouts are tested; the recursion alternates between the two operands for arbitrary shapes.',
 SET,[('recursive intersection','setNode.Intersect')],['Set.Intersection','Set_.Intersection'],TRIE)
p('C03','Set difference and removal are exact',
 'For any two address sets A and B, A.Difference(B), and A after A.Remove(B), contain an address if and only if A contains it and B does not.',
 ['inputs','histories'],'all pairs of sets reachable through the API, all addresses, IPv4 and IPv6',
 'Splitting a prefix around arbitrary removed parts has unboundedly many shapes; tests sample a few.',
 SET,[('recursive difference with halving','setNode.Difference, Prefix.Halves')],['Set.Difference','Set_.Difference','Set_.Remove'],TRIE)
p('C04','Set containment, emptiness and equality agree with membership',
 'A.Contains(B) is true if and only if every address of B is in A; IsEmpty is true if and only if no address is contained; A.Equal(B) is true if and only if A and B contain exactly the same addresses, however each was built (in particular, host bits of a Prefix used to build a set make no difference).',
 ['inputs','histories'],'all pairs of sets reachable through the API in any order of operations',
 'Equality is decided structurally, so it is right only if every construction history leads to one canonical structure; tests compare a few histories.',
 SET,[('structural comparison','trieNode.Equal'),('difference is empty','Set.Contains')],['Set.Contains','Set_.Contains','Set.Equal','Set_.Equal','Set.IsEmpty'],TRIE)
p('C05','Sets are stored as the minimal list of maximal prefixes',
 'Whatever sequence of operations produced a set, it stores exactly the maximal prefixes it contains: they are pairwise disjoint, no two of them are mergeable halves of one prefix, and the number of stored elements is bounded by that minimal number (at most one joining element per additional prefix).',
 ['inputs','histories'],'all sets reachable through the API',
 'Minimality must survive every operation in every order; the tests check it only for the layouts they build.',
 SET,[('collapse of full siblings','trieNode.flatten'),('path compression','setNode.Union default case')],['Set.WalkPrefixes','Set.String','memory use'],TRIE)
p('C06','Address, Prefix and Range convert to exactly their own addresses',
 'The Set() of an Address, a Prefix (host bits ignored) or a Range contains exactly the addresses of that value, from its first to its last; and Prefix.Contains(X) and Range.Contains(X) are true if and only if every address of X lies in that prefix or range.',
 ['inputs'],'all addresses, all prefixes (all lengths, any host bits), all ranges first <= last, including ranges touching the lowest and highest address',
 'There are 2^64 (IPv4) and 2^256 (IPv6) ranges; decomposition of a range into prefixes depends on all bits of both ends.',
 SET+['ipv4/range.go','ipv6/range.go','ipv4/prefix.go','ipv6/prefix.go','ipv4/address.go','ipv6/address.go'],
 [('divide and conquer on a pivot','setNodeFromRange'),('single prefix node','setNodeFromPrefix')],['Address.Set','Prefix.Set','Range.Set','Prefix.Contains','Range.Contains'])
p('C07','Address and prefix counts are exact or reported as errors',
 'NumAddresses (IPv4) of a Prefix, Range or Set is the exact number of distinct addresses in it, and NumPrefixes(n) of a Prefix, Range or Set is the exact number of distinct length-n prefixes wholly inside it. When n exceeds the address width and there is anything to count, or the exact count does not fit the result type, an error is returned instead of a number.',
 ['inputs','histories'],'all prefixes, ranges and sets, all lengths n (32-bit unsigned)',
 'The sums range over arbitrary structures and approach the limits of 64-bit arithmetic.',
 ['ipv4/prefix.go','ipv6/prefix.go','ipv4/range.go','ipv6/range.go']+SET,
 [('sum over stored prefixes','trieNode.NumAddresses, Set.NumPrefixes'),('power of two','Prefix.NumPrefixes')],['NumAddresses','NumPrefixes'])
p('C08','Set iteration is ordered, complete, maximal and stops on request',
 'WalkPrefixes, WalkRanges and (IPv4) WalkAddresses visit exactly the maximal prefixes, the maximal ranges, or the addresses of the set, each exactly once and in increasing order, and terminate, also at the end of the address space. When the callback returns false no further call is made and the walk returns false; otherwise it returns true.',
 ['inputs','histories'],'all sets reachable through the API, all callbacks (stopping at any point)',
 'Order and completeness must hold for every shape; tests walk small sets, none touching the last address.',
 ['ipv4/set.go','ipv6/set.go','ipv4/node.go','ipv6/node.go','ipv4/prefix.go','ipv4/range.go','ipv6/range.go'],
 [('ordered traversal via diff with the empty trie','trieNode.Walk, trieNode.diff'),('merging adjacent ranges','Set.WalkRanges, Range.Plus'),('address loop','Prefix.walkAddresses')],['Set.WalkPrefixes','Set.WalkRanges','Set.WalkAddresses'])
p('C09','FindAvailablePrefix is sound, complete and best-fit',
 'A prefix returned by FindAvailablePrefix(reserved, n) is a valid prefix of length exactly n with no host bits, lies wholly inside the set and shares no address with reserved (nil meaning nothing reserved); it is cut from a free block (a maximal prefix of set minus reserved) that is as small as any free block able to hold it. An error is returned if and only if no such prefix exists, in particular when n exceeds the address width.',
 ['inputs','histories'],'all pairs of sets, all lengths n',
 'Tests cover a table of examples and one random fill; the search recurses over two arbitrary structures at once.',
 SET,[('best-fit search','setNode.FindSmallestContainingPrefix, findSmallestContainingPrefix, best')],['Set.FindAvailablePrefix'],TRIE)
p('C10','Sets, tables and snapshots are persistent',
 'No operation ever changes the observable content of a Set or Table value, or of any snapshot taken earlier: storage that an existing value can reach is never written, so every later operation leaves every earlier value exactly as it was.',
 ['inputs','histories','schedules'],'all operations on all values, in all orders and interleavings with readers',
 'Structure sharing means one stray write can corrupt any number of older snapshots; tests look back at very few of them.',
 SET+TAB,[('copy on write','trieNode.copyMutate, mutate'),('fresh nodes only are written','insert, del, Union, Difference, aggregate, Map')],['any older Set/Table'],TRIE)
p('C11','Mutable handles share, snapshots detach, nil and zero values read as empty',
 'All copies of a Set_ or Table_ observe the same content; converting to Set/Table (and back) yields content equal at that moment that later writes do not affect, and Build returns the modified clone if the builder returns true and the unchanged original otherwise. Zero-value Set_, Set, Table_ and Table read as empty, a nil argument is treated as the empty set or the zero prefix, and writing through a zero-value Set_ or Table_ panics without effect.',
 ['inputs','histories'],'all handles including zero values, all operation sequences',
 'Each entry point handles nil and uninitialised receivers separately; tests cover some of the combinations.',
 ['ipv4/set.go','ipv6/set.go','ipv4/table.go','ipv6/table.go','ipv4/tablex.go','ipv6/tablex.go'],
 [('pointer handle over immutable root','Set_.mutate, tableX_.mutate')],['Set_','Table_','Build','Set()','Table()','Set_()','Table_()'])
p('C12','Tables behave as exact maps from network prefix to value',
 'Insert adds an entry only if its key is absent, Update replaces only if present, InsertOrUpdate always leaves the key bound to a value equal to the given one, GetOrInsert returns the existing value or inserts the given one, Remove deletes only the exact key; their results report which happened, and Get returns the bound value exactly when the key is present. Keys are compared by length and network bits only (host bits ignored), and every other key keeps its value.',
 ['inputs','histories'],'all tables reachable through the API, all keys and values, any order of operations',
 'The effect on every other key must be shown for arbitrary structures; tests check the touched key on small tables.',
 TAB,[('recursive insert and delete','trieNode.insert, trieNode.del, trieNode.GetOrInsert'),('exact match from longest match','tableX.Get')],['Table_.Insert','Table_.Update','Table_.InsertOrUpdate','Table_.GetOrInsert','Table_.Remove','Get'],TRIE)
p('C13','NumEntries is exact and table storage stays compact',
 'NumEntries always equals the number of distinct keys currently in the table, and the table never keeps an auxiliary element that has fewer than two branches, so storage stays proportional to the number of entries after any sequence of operations.',
 ['inputs','histories'],'all tables reachable through the API (fewer than 2^32 entries)',
 'Counts are cached in every node and must be maintained by every kind of structural change.',
 TAB,[('cached size and height','trieNode.mutate'),('promotion of the only child','trieNode.del, aggregate')],['NumEntries'],TRIE)
p('C14','Longest prefix match returns the most specific containing entry',
 'LongestMatch(P) returns the value and key of the entry with the longest key that contains P, and reports not found if and only if no key in the table contains P; Address arguments match as host prefixes and nil as the zero prefix.',
 ['inputs','histories'],'all tables reachable through the API, all search prefixes of any length',
 'The answer depends on all nested keys along a path of up to 33 or 129 levels; tests probe a few.',
 TAB,[('descent with fallback','trieNode.Match'),('wrapper','tableX.longestMatch')],['Table.LongestMatch','Table_.LongestMatch'],TRIE)
p('C15','Table.Walk visits every entry once in lexicographic order',
 'Walk calls the callback exactly once for every entry with its key and current value, in lexicographic order (network bits first, a shorter prefix before the longer ones it contains), stops immediately when the callback returns false, and returns false exactly in that case.',
 ['inputs','histories'],'all tables reachable through the API, all callbacks',
 'Ordering is a property of all pairs of entries in arbitrary structures.',
 TAB,[('ordered traversal via diff with the empty trie','trieNode.Walk')],['Table.Walk'],TRIE)
p('C16','Diff classifies every key exactly once, in order',
 'Diff calls removed for every key only in the left table, added for every key only in the right table, changed for every key in both with unequal values and unchanged (if given) for every key in both with equal values, each exactly once, with the values from the proper side and in lexicographic order of keys. nil callbacks are skipped, a callback returning false stops the iteration immediately and only then is false returned.',
 ['inputs','histories'],'all pairs of tables (sharing structure or not), all callbacks, any equivalence used to compare values',
 'The recursion aligns two arbitrary structures and skips shared parts; tests compare a few pairs and seldom observe order across disjoint prefixes of different length.',
 TAB,[('simultaneous descent','trieNode.diff, trieNode.Diff')],['Table.Diff'],TRIE)
p('C17','Aggregate preserves every address lookup',
 'For every address, a longest prefix match on the aggregated table gives a value equal to the one the original table gives, and finds no match exactly when the original finds none.',
 ['inputs','histories'],'all tables reachable through the API, all addresses, any equivalence used to compare values',
 'Whether merging is safe depends on all nested entries; tests aggregate a few small tables.',
 TAB,[('bottom-up aggregation under the enclosing value','trieNode.aggregate')],['Table.Aggregate'],TRIE)
p('C18','Aggregate leaves nothing redundant and keeps the comparator',
 'In an aggregated table no entry has a value equal to that of its closest enclosing entry, and no two entries with equal values are the two halves of one prefix; the aggregated table never has more entries than the original. The aggregated table compares values the same way as the table it came from.',
 ['inputs','histories'],'all tables reachable through the API, any equivalence used to compare values',
 'Redundancy can reappear after a merge at a higher level; tests check fixed examples.',
 TAB,[('bottom-up aggregation','trieNode.aggregate'),('comparator carried along','Table.Aggregate')],['Table.Aggregate'],TRIE)
p('C19','Map rewrites values only',
 'Map calls the mapper exactly once for each entry, with its key and value, in lexicographic order, and for nothing else; the result has exactly the same keys, each bound to a value equal to what the mapper returned for it. A nil mapper returns the same table.',
 ['inputs','histories'],'all tables reachable through the API, all mappers',
 'Auxiliary elements of the structure must stay invisible for every shape.',
 TAB,[('recursive rebuild','trieNode.Map')],['Table.Map'],TRIE)
p('C20','Operations always terminate normally',
 'Every exported operation on valid values returns normally for every input: no nil dereference, index error, failed type assertion, comparison of uncomparable values, endless loop or unbounded recursion. The only panics are the documented ones (writing through a zero-value Set_ or Table_, concurrent modification) and those of callbacks supplied by the caller; custom comparators are consulted only about stored or supplied values.',
 ['inputs','histories'],'all exported operations, all valid receivers and arguments, all value types allowed by the constructor used (uncomparable types and nil interface values included with a custom comparator)',
 'The tests use comparable values and small inputs; the failures need particular value types or boundary addresses.',
 ['ipv4','ipv6','ip'],[('nil checks and case analysis throughout','all files')],['all exported functions'])
p('C21','Prefix arithmetic is exact',
 'For every prefix P of length n: Mask has exactly n leading ones, Network and Host keep exactly the first n and the remaining bits, Broadcast (IPv4) sets the remaining bits, all keep length n; Range is exactly [network, network with remaining bits set]; Halves of P (n below the width) are the two length n+1 prefixes that partition it in order; Address, Prefix, Length and the integer accessors return exactly the parts P was built from.',
 ['inputs'],'all addresses and all lengths 0..32 or 0..128',
 'The tests use a few prefixes; shifts by 0, by the full width and across the 64-bit boundary behave differently.',
 ['ipv4/prefix.go','ipv6/prefix.go','ipv6/uint128.go','ipv4/mask.go','ipv6/mask.go'],
 [('mask arithmetic','Prefix.Mask, lengthToMask'),('128-bit arithmetic','uint128')],['Prefix methods'])
p('C22','Range arithmetic is exact',
 'RangeFromAddresses(a, b) is empty exactly when b < a and otherwise spans a to b. Minus returns, in order, disjoint non-empty ranges covering exactly the addresses of the first range not in the second. Plus returns one range when the two overlap or are adjacent and otherwise both in order, covering exactly the addresses of the two, including at the ends of the address space.',
 ['inputs'],'all pairs of ranges first <= last, including those touching the lowest and highest address',
 'Correctness hinges on wrap-around at the ends of the address space, which the tests never touch.',
 ['ipv4/range.go','ipv6/range.go','ipv4/address.go','ipv6/address.go'],
 [('interval arithmetic with successor/predecessor','Range.Plus, Range.Minus, Range.next, Range.prev')],['RangeFromAddresses','Range.Minus','Range.Plus','Range.First','Range.Last'])
p('C23','Masks are always a run of ones followed by zeros',
 'Every Mask constructor succeeds exactly for bit patterns that are n ones followed by zeros (or lengths between 0 and the width) and then represents exactly that pattern; Length returns n, and the conversion to net.IPMask and back is the identity. Anything else is rejected with an error.',
 ['inputs'],'all 2^32 and 2^128 patterns, all lengths, all net.IPMask values',
 'Tests try a few masks; every non-contiguous pattern must be rejected.',
 ['ipv4/mask.go','ipv6/mask.go','ip/mask.go','ipv6/uint128.go'],
 [('popcount equals leading ones','Mask.valid'),('shift','lengthToMask')],['MaskFrom*','Mask.Length','Mask.ToNetIPMask'])
p('C24','Numeric, byte and net conversions are exact inverses',
 'Converting an Address or Prefix to its integer, byte, net.IP or net.IPNet form and back yields the same value, bytes are in network order, and inputs of the wrong size, family or mask form are rejected with an error. Addresses order as the unsigned integers they denote.',
 ['inputs'],'all 2^32 and 2^128 addresses, all prefixes, all byte slices, net.IP and net.IPNet values',
 'Each bit and byte position must be placed right; tests use a few addresses.',
 ['ipv4/address.go','ipv6/address.go','ipv4/prefix.go','ipv6/prefix.go','ipv6/uint128.go'],
 [('shift and or','AddressFromBytes, toBytes, uint128FromBytes, uint128.toBytes'),('size checks','fromSlice, PrefixFromNetIPNet')],['AddressFrom*','ToNetIP','PrefixFromNetIPNet','ToNetIPNet','Uint32','Uint64'])
p('C25','Text forms parse back to the same value',
 'Parsing the String form of any IPv4 or IPv6 Address or Prefix with the constructor of its own family yields that value again (IPv4-mapped IPv6 addresses and prefixes with host bits included); text that is not an address or prefix of that family is rejected with an error (an IPv4-mapped IPv6 text may be read as the IPv4 address it denotes).',
 ['inputs'],'all addresses and prefixes',
 'Tests format and parse a few addresses, none of them IPv4-mapped.',
 ['ipv4/address.go','ipv6/address.go','ipv4/prefix.go','ipv6/prefix.go'],
 [('formatting','Address.String, Prefix.String'),('parsing through net','AddressFromString, PrefixFromString')],['String','AddressFromString','PrefixFromString'])
p('C26','The generic package keeps families apart',
 'Every function of package ip returns exactly what the ipv4 or ipv6 function for the family of its argument returns; the family is determined by the argument, values of different families are never combined (an error is returned), and unknown kinds yield an error or nil.',
 ['inputs'],'all values of the common interfaces, all byte lengths',
 'Tests try one value per branch.',
 ['ip/address.go','ip/mask.go','ip/prefix.go','ip/range.go'],[('type switch','all functions of package ip')],['package ip'])
p('C27','Concurrent writes take effect atomically or panic; reads see one state',
 'A write to a Set_ or Table_ either panics leaving it unchanged by that write, or replaces the content current at one instant by exactly that content with the operation applied, so no completed write is ever silently lost; every read works on the content at one single instant; an operand that is itself a mutable Set_ is read at one instant, too. A write that changes nothing and reports so needs the content it was decided on to have been current at one instant. This holds for any interleaving of any number of readers and writers.',
 ['schedules','inputs'],'all interleavings of any number of goroutines at the granularity of single loads, stores and compare-and-swaps of the shared root',
 'Tests force one interleaving; the failing ones need another writer between two particular loads.',
 ['ipv4/set.go','ipv6/set.go','ipv4/tablex.go','ipv6/tablex.go','ipv4/unsafe_atomic.go','ipv6/unsafe_atomic.go'],
 [('compare-and-swap of the root pointer','Set_.mutate, tableX_.mutate, swap*Ptr')],['Set_.Insert','Set_.Remove','Table_ writes','reads'],
 [('root pointer','current immutable trie of a Set_ or Table_','Set.trie, tableX.trie')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80,d['title']
        f.write(json.dumps(d)+'\n')
print(len(P))
