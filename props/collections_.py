"""chain-map and topo-sort."""
from registry import Job, Prop
F = 'crates/chain-map/src/lib.rs'
P = {}
OLD = Job('chain-map', 'h_old', 'fixed operations before an arbitrary one, clones being made and dropped', [12, 40], [12, 40, 100], qrel=[12])
WIDE = 'keys that hash differently, in layers of four shapes, shared with clones'
WIDEH = Job('chain-map', 'h_wide', WIDE, [40, 300], [40, 300, 1000], qrel=[40], steps=100_000_000_000)
WIDEI = Job('chain-map', 'h_wide_iterate', WIDE, [40, 300], [40, 300, 3000], qrel=[40], steps=100_000_000_000)
WHY = 'The one test makes one insertion and one lookup.'
FLAT = 'symbolic keys hash alike (their equality is symbolic): the table layout std picks for other hash values is trusted'
HOPS = ['insert', 'remove an existing key', 'write through get_mut', 'extend', 'append', 'iter_mut', 'consolidate']
P['C01'] = Prop('A chain map answers like a map', 'After any history of insertions, removals, extensions, appends, writes through mutable references and iterators, and consolidations, a lookup returns the newest value of the key or nothing if it was never inserted or was removed; insert says whether the key was new, remove returns the newest value, append leaves the other map empty, and a map says it is empty exactly when no key is present.',
    'histories inputs', 'every history of operations up to the bound, over arbitrary keys and values', WHY, F, [('lookup from the newest layer to the oldest', F), ('consolidation of the layers, oldest first', F)], 'chain_map',
    [Job('chain-map', 'h_history', 'operations in the history', [1, 2, 3], [1, 2, 3, 4]), Job('chain-map', 'h_two', 'operations on two maps, appending and cloning them included', [3, 4, 5], [3, 4, 5, 6]), OLD, WIDEH], HOPS + ['many keys', 'append a map', 'extend by nothing', 'replace by a clone', 'drop what is drained', 'a long history'], 'histories of at most 3 (thorough: 4) operations on one map, 5 (thorough: 6) on two; one operation after 40 (thorough: 100) fixed ones; one operation on maps of 300 (thorough: 1000) keys', [FLAT])
P['C02'] = Prop('Iteration has each key once', 'After any history of operations, iterating over a chain map in any of the ways it offers (shared, mutable, draining, by value) yields every present key exactly once with its newest value, and draining leaves it empty and usable.',
    'histories inputs', 'every history of operations up to the bound, over arbitrary keys and values', WHY, F, [('the set of seen keys', F), ('consolidation', F)], 'chain_map',
    [Job('chain-map', 'h_iterate', 'operations in the history', [0, 1, 2], [0, 1, 2, 3]), OLD, WIDEI], ['many keys', 'built from a list', 'several bindings', 'iter', 'iter_mut', 'drain', 'into_iter', 'a clone', 'a long history'], 'histories of at most 2 (thorough: 3) operations, after none or one two-element construction, with or without a clone; one operation after 40 (thorough: 100) fixed ones; one operation on maps of 300 (thorough: 1000) keys', [FLAT])
P['C03'] = Prop('Clones of a chain map are independent', 'A clone of a chain map answers like the original did at the time of cloning, and from then on no operation on either is visible through the other, in both the single-threaded and the `sync` configuration.',
    'histories inputs configurations', 'every history of operations before and after cloning up to the bound, over arbitrary keys and values', WHY, F, [('copy on write of shared layers', F)], 'chain_map',
    [Job('chain-map', 'h_clone', 'operations before cloning*10 + operations after it', [11, 12, 21], [11, 12, 21, 13, 22]), Job('chain-map', 'h_family', 'clones, insertions, removals and writes on up to three maps', [3, 4, 5], [3, 4, 5, 6]),
     Job('chain-map', 'h_family', 'as above, feature sync', [3, 4, 5], [3, 4, 5, 6], features='sync'), OLD, WIDEH], ['many keys', 'the original changes', 'the clone changes', 'clone', 'write to a shared value', 'a clone after a long history'],
    'at most 3 operations around one cloning (thorough: 4), or 5 (thorough: 6) operations and clonings of up to three maps; one operation after 40 (thorough: 100) fixed ones; one operation on maps of 300 (thorough: 1000) keys', [FLAT, 'one thread: clones used from several threads at once are not explored'])
F = 'crates/topo-sort/src/lib.rs crates/topo-sort/src/graph.rs'
L = 'crates/topo-sort/src/lib.rs'
WHY = 'The tests sort about ten fixed graphs with one expected order each.'
GR = 'every graph up to the bound: arbitrary edges between arbitrary ids, and every set of edges over few ids'
LARGE = 'size*10 + shape (chain down or up, star, tree, chain with shortcuts), with every choice of up to two more edges between five of the nodes'
JG = [Job('topo', 'h_edges', 'edges between arbitrary ids', [0, 1, 2, 3], [0, 1, 2, 3, 4]), Job('topo', 'h_matrix', 'ids, each with an entry or not, every set of edges', [1, 2, 3], [1, 2, 3]), Job('topo', 'h_dag', 'ids, every set of descending edges and possibly one more, under an arbitrary renaming', [3, 4, 5], [3, 4, 5], qrel=[3]), Job('topo', 'h_large', LARGE, [3000, 3001, 3002, 3003, 3004], [3000, 3001, 3002, 3003, 3004, 400])]
GB = 'graphs of at most 3 (thorough: 4) edges between arbitrary ids, all graphs over 3 ids, all acyclic graphs over 5 ids with at most one more edge; five graphs of 300 nodes with up to two more edges'
P['G01'] = Prop('An acyclic graph is sorted completely', 'For every graph without a cycle, sorting succeeds and returns every node exactly once, also nodes that occur only as neighbours, and each node after all of its neighbours.',
    'inputs', GR, WHY, F, [('depth-first visit with a work list', L)], 'topo_sort', JG, ['sorted with several edges', 'a large graph sorted'], GB)
P['G02'] = Prop('A cycle is found and witnessed', 'For every graph with a cycle (a self-loop included), sorting fails with an error whose witness is a node on a cycle, and it never fails for a graph without one.',
    'inputs', GR, WHY, F, [('the set of elements in progress', L)], 'topo_sort', JG, ['cycle', 'a cycle in a large graph'], GB)
P['G03'] = Prop('Each element is visited once, bracketed', 'Whatever a visitor asks for, every element reachable without passing through a skipped one is processed exactly once with its own data, is finished after everything it asked for except along a cycle, begins and finishes are nested with the stated level, exactly these elements are reported done, and a cycle is reported exactly if there is one, by an element on it.',
    'inputs histories', 'every start list, graph and set of skipped elements up to the bound, over arbitrary ids', WHY, F, [('start and end actions on a stack', L)], 'topo_sort',
    [Job('topo', 'h_protocol', 'start elements*100 + edges*10 + skipped elements', [110, 121, 220, 131, 222], [110, 121, 220, 131, 222, 231, 140], must=4), Job('topo', 'h_protocol_hash', 'as above, with a hash set', [121, 220], [121, 220, 231]), Job('topo', 'h_large_protocol', LARGE, [3000, 3001, 3002, 3003, 3004], qrel=[3000])],
    ['cycle (visitor)', 'no cycle (visitor)', 'a skipped element', 'a large graph visited'], 'at most 2 start elements, 3 (thorough: 4) edges, 2 skipped elements, in the combinations listed under runs; graphs of 300 nodes', ['in the hash set all elements hash alike'])
P['G04'] = Prop('The sets used by sorting are sets', 'For every history of insertions and removals, each set type offered to the sorter reports membership, newness and emptiness as a mathematical set does.',
    'histories', 'every history of operations up to the bound, over arbitrary elements', WHY, L, [('implementations of the set interface', L)], 'topo_sort', [Job('topo', 'h_set', 'operations', [1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6]), Job('topo', 'h_grow', 'elements inserted, then removed one by one', [12, 24], [12, 24, 60])], ['insert again', 'remove', 'a set that was large'], 'at most 5 (thorough: 6) operations on arbitrary elements; sets of 24 (thorough: 60) elements that are removed in two orders', ['in hash sets all elements hash alike'])
