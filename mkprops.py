#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements stay readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

S='src/state.cpp'; A='src/accumulator.cpp'; R='src/ram_forest.cpp'; B='src/batchproof.cpp'; PO='src/pollard.cpp'

p('C01','Node positions encode the forest geometry',
 "In a forest of n leaves (n up to 2^62) whose height is the smallest h with n <= 2^h, the node with index i on row r has the position that the row numbering assigns it, and parent, ancestor, left child, child, leftmost descendant, sibling, right sibling and cousin map positions exactly as (row, index) -> (row+k, index >> k), (row-k, index << k), index^1, index|1 and index^2 prescribe. Row detection, the first position of a row, the number of rows and the maximum number of nodes agree with the same numbering, so parent and child are inverse, siblings have the same parent, and rows occupy disjoint consecutive ranges.",
 ['inputs'],'every leaf count up to 2^62, every row, every valid position and every rise/drop that stays within the forest',
 'The unit tests check a few dozen hand-picked positions in forests of up to 32 rows at most; the statement quantifies over 2^62 leaf counts and all positions, including the shift-width corner cases near the top row.',
 [S,'src/state.h','src/crypto/common.h'],
 [('ForestState::Parent/Ancestor/LeftChild/Child/LeftDescendant/Cousin/RightSibling/Sibling',S),('ForestState::NumRows/DetectRow/RowOffset/MaxNodes',S),('CountBits','src/crypto/common.h')],
 ['ForestState position functions'])

p('C02','Roots and paths follow the binary expansion of the leaf count',
 "A forest of n leaves has exactly one root on row r for every set bit r of n and no others: the number of roots is the number of set bits, the root position on row r is the position of the last complete node of that row, and the root lists enumerate them from the tallest tree to the shortest, also when computed for a smaller leaf count inside the numbering of a bigger forest. The path of any existing node names the one tree that contains it (counting from the tallest), the exact distance to that tree's root and the left/right turns leading to it, and the root index agrees with that tree.",
 ['inputs'],'every leaf count up to 2^62, every existing node position, and every smaller leaf count for the root list of a future state',
 'Tests sample a handful of leaf counts; whether every node of every tree shape is attributed to the right tree and path cannot be enumerated.',
 [S,'src/state.h'],
 [('ForestState::NumRoots/HasRoot/RootPosition/RootPositions/RootIndex/Path',S),('_rootPosition/_hasRoot',S)],
 ['ForestState root functions','Accumulator::Roots order'])

p('C03','Proof positions are exactly what is needed and nothing more',
 "For any strictly ascending set of existing leaves, the computed positions are exactly the targets and all their ancestors up to the roots of their trees, row by row from the bottom and ascending within a row, and the proof positions are exactly the siblings of computed non-root nodes that are not computed themselves, in the same order, without duplicates. Consequently a verifier that knows the targets and the proof nodes can compute every root above a target, and dropping any single proof position makes some computed node impossible to compute.",
 ['inputs'],'every leaf count and every strictly ascending list of leaf positions below it (any length, any adjacency pattern of up to four neighbouring targets)',
 'The number of target sets is exponential in the number of leaves; the tests try seven of them, while the function special-cases groups of one, two, three and four adjacent targets and roots on every row.',
 [S],[('ForestState::ProofPositions',S)],['ForestState::ProofPositions','size and order of BatchProof hashes','BatchProof::CheckSanity'])

p('C04','Only well-formed target lists are accepted',
 "A target list is accepted exactly when it is empty, or strictly ascending (hence without duplicates), no longer than the number of leaves, and every target is an existing leaf position. A batch proof passes its sanity check exactly when its sorted targets are accepted for that leaf count and it carries no more hashes than there are proof positions for these targets.",
 ['inputs'],'every leaf count and every list of 64-bit target values; every batch proof',
 'Tests and fuzz corpora contain a few malformed lists; acceptance must be exact for every list because removal and verification index into the forest with the accepted values.',
 [S,B],[('ForestState::CheckTargetsSanity / IsSortedNoDupes',S),('BatchProof::CheckSanity',B)],['ForestState::CheckTargetsSanity','BatchProof::CheckSanity','return value of Modify/Prove/Verify'])

p('C05','The remove transformation moves exactly the deleted leaves to the end',
 "For every leaf count n and every accepted target list of k leaves, carrying out the computed swaps row by row from the bottom (each swap exchanging two whole subtrees of that row) is a permutation of the n leaves after which the k deleted leaves, and only they, occupy the last k leaf positions and the n-k surviving leaves occupy the first n-k. Every swap exchanges two existing subtrees of the same row, and every node above the surviving leaves whose children changed lies on the upward path of a non-collapse swap.",
 ['inputs'],'every leaf count and every accepted target list, including deleting roots, siblings, everything, and patterns that cascade over many rows',
 'The tests compare nine hand-computed swap lists; the algorithm cascades decisions over up to 62 rows and rewrites lower rows because of swaps on higher rows, which only appears in particular combinations of leaf count and targets.',
 [S],[('ForestState::Transform, ComputeNextRowTargets, MakeSwaps, MakeCollapse',S),('ForestState::ConvertCollapses, SwapInRow, SwapIfDescendant',S)],['ForestState::Transform','leaf order of a forest after Modify'])

p('C06','The undo transformation is the inverse of the remove transformation',
 "For every leaf count and accepted target list, the undo swaps are leaf-range swaps which, carried out in reverse order, restore every leaf to the position it had before the remove transformation; each range swap covers exactly the leaves below the two subtrees that the corresponding remove swap exchanged.",
 ['inputs'],'every leaf count and every accepted target list',
 'Tests check five hand-written undo lists; the inverse relation must hold for exponentially many target sets.',
 [S],[('ForestState::UndoTransform, Swap::ToLeaves',S)],['ForestState::UndoTransform','RamForest::Undo'])

p('C07','Adding leaves keeps the forest a correct Merkle forest',
 "After adding any batch of new, distinct leaves to a forest, the leaf count has grown by the size of the batch, the previous leaves keep their positions and the new ones follow in order, every inner node is the parent hash of its two children, the reported roots are the Merkle roots of the trees given by the binary expansion of the leaf count (taller first), and the position map contains exactly the leaves at their positions.",
 ['inputs','histories'],'every forest state satisfying the same invariant and every batch of leaves whose hashes are pairwise distinct and not yet in the forest',
 'Unit tests add 8 to 32 leaves in one or two batches; the carry chain over root merges and the renumbering when the forest gets taller must be right at every leaf count and for every history that led to the state.',
 [A,R],[('Accumulator::Add',A),('RamForest::Add/NewLeaf/MergeRoot',R)],['Accumulator::Roots','RamForest::GetLeaf','Accumulator::NumLeaves','Accumulator::Prove'],
 [dict(name='m_data/m_roots/m_posmap',meaning='hash of every node by row, the current roots, leaf hash -> position',where='include/ram_forest.h, include/accumulator.h')])

p('C08','Removing leaves keeps the forest a correct Merkle forest',
 "After removing any accepted target list from a forest, the leaf count has dropped by the number of targets, exactly the other leaves remain, every remaining inner node is the parent hash of its two children, the reported roots are the Merkle roots of the remaining trees, and the position map contains exactly the remaining leaves at their positions.",
 ['inputs','histories'],'every forest state satisfying the invariant and every accepted target list',
 'The set of (leaf count, target set) pairs is exponential; the tests do a few small removals and random walks without an independent oracle for inner nodes and leaf positions.',
 [A,R,S],[('Accumulator::Remove',A),('RamForest::SwapSubTrees/SwapRange/FinalizeRemove',R),('RamForest::Node::ReHash/Parent',R),('Accumulator::UpdatePositionMapForRange/UpdatePositionMapForSubtreeSwap',A)],
 ['Accumulator::Roots','RamForest::GetLeaf','Accumulator::NumLeaves','Accumulator::Prove'])

p('C09','Undo restores the forest exactly',
 "Applying a modification (any accepted removals followed by any additions) to a forest and then undoing it with the undo data it produced restores the previous leaf count, the hash of every leaf at its previous position, every inner node, the roots and the position map; the undo data itself lists the number of additions, the removed positions and the removed hashes. This also holds for several modifications undone in reverse order.",
 ['inputs','histories'],'every forest state satisfying the invariant, every accepted target list, every batch of new leaves, and every stack of modifications undone last to first',
 'Tests undo a few fixed modifications and compare mainly the roots; the re-hashing of only the dirty part and the resizing of rows depend on the combination of leaf count, removals and additions.',
 [R,S],[('RamForest::Modify/BuildUndoBatch/Undo/RestoreRoots',R),('ForestState::UndoTransform',S)],['RamForest::Undo','RamForest::operator==','RamForest::GetLeaf','UndoBatch getters'])

p('C10','Batch proofs survive serialization and malformed bytes are rejected',
 "For every batch proof with fewer than 2^32 targets and hashes and with targets below 2^32, serializing and then deserializing (into a fresh or an already used object) yields an equal proof with the same targets in the same order, their ascending sorted list and the same hashes, and the bytes are the documented big-endian layout. A byte string is accepted exactly when its length is the one implied by its own counts; a rejected string leaves the object unchanged, and no byte string causes an out-of-bounds access.",
 ['inputs'],'every proof in the stated size range and every byte string (of less than 2^31 bytes)',
 'Round trips of a few sample proofs and a fuzz corpus do not cover every byte string, count overflow or object reuse.',
 [B,'src/crypto/common.h'],[('BatchProof::Serialize/Unserialize',B),('WriteBE32/ReadBE32','src/crypto/common.h')],['BatchProof::Serialize','BatchProof::Unserialize','BatchProof getters'])

p('C11','Undo data survives serialization and malformed bytes are rejected',
 "For every undo batch with as many removed hashes as removed positions, fewer than 2^32 entries and values below 2^32, serializing and then deserializing yields an equal undo batch, and the bytes are the documented big-endian layout. A byte string is accepted exactly when its length is the one implied by its own counts, and no byte string causes an out-of-bounds access.",
 ['inputs'],'every undo batch in the stated size range and every byte string (of less than 2^31 bytes)',
 'Tests round-trip one undo batch; the size check must be exact for all 2^32 announced counts (an overflow in it is invisible to small samples).',
 [B,'src/crypto/common.h'],[('UndoBatch::Serialize/Unserialize',B),('WriteBE32/ReadBE32','src/crypto/common.h')],['UndoBatch::Serialize','UndoBatch::Unserialize','UndoBatch getters'])

p('C12','A forest restored from its file is the forest that was saved',
 "Closing a forest (which saves it to its file) and opening that file again yields a forest with the same leaf count, the same hash at every leaf and inner position, the same roots and the same position map, whatever sequence of additions, removals and undos (growing or shrinking) preceded the save and whether the file held a bigger or smaller forest before; the reopened forest supports further modifications and undoing the earlier ones. A new file yields an empty forest.",
 ['histories','inputs'],'every forest state satisfying the invariant, any earlier content written by the same forest',
 'One test stores a single forest once; shrinking, re-saving over longer content, and every leaf count are not covered.',
 [R,'src/crypto/common.h'],[('RamForest::Commit/Restore/RestoreRoots, constructors and destructor',R)],['RamForest(file) constructor','RamForest::Commit','RamForest::operator=='])

p('C13','A forest proves exactly the leaves it contains, with correct proofs',
 "Asked to prove any list of distinct leaf hashes, a forest succeeds exactly when all of them are in it; the batch proof then lists their positions in the order asked, the same positions sorted, and as hashes the actual node hashes at the proof positions in order, so that recomputing the roots from target hashes and proof hashes gives the forest's roots. Proving does not change the forest, and on failure the proof object is left untouched.",
 ['inputs','histories'],'every forest state satisfying the invariant and every list of hashes (in or not in the forest, in any order)',
 'Tests prove a few sets in small forests.',
 [A,S,B],[('Accumulator::Prove',A),('ForestState::ProofPositions',S),('BatchProof constructor','include/batchproof.h')],['Accumulator::Prove','BatchProof getters'])

p('C14','A pollard accepts no invalid proof',
 "If a pollard accepts a batch proof for a list of target hashes, then every target hash really is the hash of the leaf at the corresponding sorted target position of the forest whose roots the pollard holds (unless two different inputs collide under the hash function); in particular any proof with a wrong, missing, surplus or reordered hash, target or target hash is rejected, whatever part of the forest the pollard has cached before.",
 ['inputs','histories'],'every pollard state reachable by additions, removals, verifications, pruning and construction from roots; every proof and every list of target hashes',
 'Tests reject a couple of tampered proofs on fresh pollards; cached nodes change which hashes are consumed and which comparisons are skipped, so the acceptance decision depends on the whole history.',
 [PO,S],[('Pollard::Verify/CreateProofTree/VerifyProofTree/InitChildrenOfComputed',PO),('Pollard::Node::ReHashAndVerify',PO)],['Pollard::Verify'])

p('C15','A pollard accepts every honest proof',
 "A pollard holding the roots of a forest accepts the proof that the forest creates for any accepted set of its leaves, given the target hashes in ascending position order, and also accepts the same proof with those hashes left out that the pollard has cached at that moment; afterwards all targets are remembered. It accepts it for whatever part of the forest the pollard has cached.",
 ['inputs','histories'],'every forest, every reachable pollard for it, every accepted target set, every choice of cached hashes to omit',
 'Tests verify a few full proofs and one partial proof.',
 [PO],[('Pollard::Verify/CreateProofTree/VerifyProofTree',PO)],['Pollard::Verify','Pollard::NumCachedLeaves'])

p('C16','Verification never changes the roots and a rejected proof changes nothing',
 "Verifying any proof, accepted or not, leaves the roots and the leaf count of a pollard unchanged. If the proof is rejected, the cached nodes, the number of cached leaves and the set of leaves the pollard can prove are also unchanged.",
 ['inputs','histories'],'every reachable pollard state and every proof and target hash list, failing at any step',
 'Tests only look at the return value and, in one case, at the node count after one kind of failure; each failing step leaves a different partial state to be rolled back.',
 [PO],[('Pollard::Verify recovery tree',PO),('Pollard::InternalNode::Chop/ChopLeft/ChopRight',PO)],['Accumulator::Roots','Pollard::CountNodes','Pollard::NumCachedLeaves','Accumulator::Prove'])

p('C17','A pollard and the full forest agree on the roots',
 "Starting from the same roots, a pollard that applies the same modifications as a forest (additions with any remember flags, removals of leaves it has just verified) reports the same roots in the same order and the same leaf count after every modification, and every hash it has cached equals the forest's hash at that position.",
 ['histories'],'every history of additions, verifications, removals, pruning and rejected proofs',
 'Tests run a short random chain with one fixed flow; which nodes are cached, pruned or swapped depends on the entire history.',
 [PO,A],[('Pollard::SwapSubTrees/MergeRoot/NewLeaf/FinalizeRemove/ReadSiblings',PO),('Accumulator::Add/Remove',A),('Pollard::Node::ReHash',PO)],['Accumulator::Roots','Accumulator::NumLeaves'])

p('C18','Remembered leaves stay provable',
 "A pollard knows the correct current position of every leaf it remembers (leaves added with the remember flag and leaves verified since the last prune, minus those removed) and of no other leaf, can create for each of them the same proof the forest would create, and reports as the number of cached leaves exactly how many there are; a leaf that is removed or pruned is forgotten.",
 ['histories'],'every history of additions, verifications, removals, pruning and rejected proofs',
 'Whether a remembered leaf loses its branch depends on interleavings of pruning during re-hashing, swaps, merges and root selection over a long history.',
 [PO,A],[('Pollard::Node::ReHash / InternalNode::Prune / MergeRoot / FinalizeRemove / Prune',PO),('Accumulator::UpdatePositionMapForRange',A)],['Accumulator::Prove on a Pollard','Pollard::NumCachedLeaves','Accumulator::ComparePositionMap'])

p('C19','Parent hashes are SHA-512/256 of the concatenated children',
 "The parent of any two 32-byte hashes is the SHA-512/256 digest (FIPS 180-4) of left followed by right, and the hasher computes the SHA-512 respectively SHA-512/256 digest of any message independently of how the message is split into writes.",
 ['inputs'],'every pair of hashes; every message and every way to split it into chunks',
 'The tests never check a hash value against the standard; a wrong constant or padding would stay self-consistent.',
 ['src/crypto/sha512.cpp',A,'src/crypto/common.h'],[('CSHA512::Write/Finalize/Finalize256, sha512::Transform','src/crypto/sha512.cpp'),('Accumulator::ParentHash',A)],['Accumulator::ParentHash','root hashes'])

p('C20','Rejected modifications and queries leave the accumulator unchanged',
 "A modification whose target list is not acceptable is rejected before anything changes: leaf count, roots, leaves and position map of a forest or pollard stay as they were and the undo data is not written. Read-only operations (reporting roots, leaf count, leaves, proving, comparing, counting nodes) never change the accumulator.",
 ['inputs','histories'],'every forest and pollard state and every unacceptable target list; every query',
 'Tests do not compare complete states around rejected calls.',
 [A,R],[('Accumulator::Modify/Remove',A),('RamForest::Modify',R)],['Accumulator::Modify','RamForest::Modify','Accumulator::Roots'])

with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
