"""What each property's check consists of: verification units and modules, level, bounded part."""
import os, sys
ROOT=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,os.path.join(ROOT,'extract'))
from units import unit_state, unit_batch, unit_sane, unit_sha, unit_forest, unit_transform, unit_pollard, unit_polmod
UNITS={'polmod':unit_polmod,'forest':unit_forest,'pollard':unit_pollard,'transform':unit_transform,'state':unit_state,'batch':unit_batch,'sane':unit_sane,'sha':unit_sha}
TRUSTED=['Verus 0.2026.09.13 and its bundled Z3','clang 18 AST of the C++ source','extract/extract.py: the mechanical C++-to-Verus translation (rules in DESIGN.md)','specs/prelude.rs: contracts of the C++ integer operations and of the std:: functions used (external_body)']
ASSUMPTIONS=['memory allocation succeeds; vectors stay below 2^63 elements','the build is the default one (asserts on, CHECK_SAFE empty, no USE_ASM paths)','CountBits: the loop version that this build selects','little-endian host (the byte-order macros of crypto/common.h as this build selects them)']
KF=os.path.join(ROOT,'known_findings.txt')
def known(pid):
    out=[]
    if os.path.exists(KF):
        for l in open(KF):
            if l.startswith('finding: property=%s '%pid): out.append(l.split(' ',2)[2].strip())
    return out
G='s_geo'; 
RULES={
 'C01':'every leaf count up to 140 (thorough 600) with every node, plus leaf counts near powers of two and random ones up to 2^62 with boundary and random nodes; non-trivial: n > 1',
 'C02':'every leaf count up to 90 (thorough 300) with every existing node and every smaller leaf count, plus leaf counts near powers of two and random ones up to 2^62; non-trivial: n > 1',
 'C03':'every target subset for n <= 13 (thorough 17), plus random leaf counts below 2^61 with structured target sets; non-trivial: at least one target',
 'C04':'all short lists over a boundary alphabet for n <= 5, plus mutated target lists for n up to 2^62; non-trivial: non-empty list',
 'C05':'every target subset for n <= 12 (thorough 17), plus random leaf counts below 2^55 with structured target sets; non-trivial: at least one target',
 'C06':'every target subset for n <= 12 (thorough 16), plus random leaf counts below 2^55 with structured target sets; non-trivial: at least one target',
 'C07':'every pair of batch sizes up to 34 x 18 (thorough 70 x 40) and random histories; non-trivial: something is added',
 'C08':'every target subset for n <= 9 (thorough 12), random removals up to 600 leaves and random histories; non-trivial: something is removed',
 'C09':'every target subset for n <= 8 (thorough 12) with several additions, random modifications and random histories with multi-step undo; non-trivial: something is modified',
 'C10':'random batch proofs (round trip, layout, truncations) and adversarial byte strings whose counts nearly fit or fit modulo 2^32',
 'C11':'random undo batches (round trip, layout, truncations) and adversarial byte strings whose counts nearly fit or fit modulo 2^32',
 'C12':'saving and reopening after additions/removals for n <= 40 (thorough 140) and random histories of add/remove/undo/commit/reopen',
 'C13':'every target subset of small forests in several orders, absent and duplicate hashes, and random histories',
 'C14':'every target subset of small forests with every single-hash/target mutation of the proof against pollards with different caches, plus random histories with tampered proofs',
 'C15':'honest full and partial proofs against pollards with different caches, plus random histories',
 'C16':'tampered and honest proofs; all observable pollard state compared before and after',
 'C17':'every target subset for n <= 8 (thorough 10) against pollards with different caches, plus random histories',
 'C18':'random histories; every remembered leaf is proved and compared with the forest',
 'C19':'random pairs of hashes, messages of every length up to 300 (thorough 700) with random splits, against an independent SHA-512(/256)',
 'C20':'modifications with malformed target lists and all queries; all observable state compared before and after',
}
PROPS={p:dict(units=[],level='exploration',rule=r) for p,r in RULES.items()}
PROPS['C01'].update(units=[('state',['s_prelude',G,'m_pos'])],level='proof')
PROPS['C02'].update(units=[('state',['s_prelude',G,'s_roots','m_pos','m_root'])],level='proof')
PROPS['C03'].update(units=[('state',['s_prelude',G,'s_roots','s_proofpos','m_pos','m_root','m_proof'])],level='proof')
PROPS['C04'].update(units=[('sane',['s_prelude',G,'s_roots','s_proofpos','m_pos','m_root','m_proof','m_sane','m_bsane'])],level='proof')
PROPS['C10'].update(units=[('batch',['s_prelude','s_bytes','s_batch','m_bytes','m_batch'])],level='proof')
PROPS['C11'].update(units=[('batch',['s_prelude','s_bytes','s_batch','m_bytes','m_undo'])],level='proof')
PROPS['C19'].update(units=[('sha',['s_prelude','s_bytes','s_sha_k','s_sha','s_sha_inv','m_bytes64','m_sha_f','m_sha_t','m_sha_w','m_sha_p'])],level='proof')
_F=["s_prelude",G,"s_roots","s_proofpos","s_heap","s_carry","s_provegen","s_forest"]
PROPS['C07'].update(units=[('forest',_F+['m_fnode','m_fadd','m_fread']),('state',['m_pos','m_root'])],level='proof')
PROPS['C13'].update(units=[('forest',_F+['s_prove','m_fread','m_prove']),('state',['m_pos','m_root','m_proof','m_sane'])],level='proof')
_T=['s_prelude',G,'s_roots','s_proofpos','s_transform','s_transrow','s_transconv','s_transdet']
PROPS['C05'].update(units=[('transform',_T+['m_tr']),('state',['m_pos','m_root'])],level='proof')
PROPS['C06'].update(units=[('transform',_T+['s_transundo','m_tr']),('state',['m_pos','m_root'])],level='proof')
_R=_F+['s_transform','s_transundo','s_remove','s_remrow']
PROPS['C08'].update(units=[('forest',_R+['m_fnode','m_fswap','m_fremove','m_fread']),('transform',_T+['m_tr']),('state',['m_pos','m_root']),('sane',['m_sane'])],level='proof')
PROPS['C09'].update(units=[('forest',_R+['s_undo','m_fnode','m_fswap','m_fremove','m_fadd','m_fmod','m_fundo','m_fread']),('transform',_T+['s_transundo','m_tr']),('state',['m_pos','m_root']),('sane',['m_sane'])],level='proof')
PROPS['C12'].update(units=[('forest',_R+['s_undo','s_file','m_ffile','m_fread']),('state',['m_pos','m_root']),('sha',['s_bytes','m_bytes64'])],level='proof')
_Q=['s_prelude',G,'s_roots','s_proofpos','s_heap','s_carry','s_provegen','s_pollard','s_polmod']
PROPS['C20'].update(units=[('forest',_R+['m_fmod','m_fremove','m_fread']),('sane',['m_sane']),('polmod',_Q+['m_padd','m_pread'])],bounded_for=['Pollard: Modify and Remove','ComparePositionMap, operator<<'])
_P=['s_prelude',G,'s_roots','s_proofpos','s_heap','s_pollard']
PROPS['C16'].update(units=[('pollard',_P+['m_pnode','m_pinit','m_pver']),('state',['m_pos','m_root','m_proof']),('sane',['m_sane','m_bsane'])],level='proof')
PROPS['C17'].update(units=[('polmod',_Q+['m_padd','m_pread']),('state',['m_pos','m_root'])],bounded_for=['Pollard: Remove (SwapSubTrees, Node::ReHash, FinalizeRemove) and accepted Verify'])
PROPS['C18'].update(units=[('polmod',_Q+['m_padd','m_pread']),('state',['m_pos','m_root','m_proof'])],bounded_for=['Pollard: Remove (SwapSubTrees, Node::ReHash, FinalizeRemove) and accepted Verify'])
NOTES={}
NOTES['C16']='Pollard::Verify with all its callees (CreateProofTree, InitChildrenOfComputed, VerifyProofTree, ReHashNoPrune, ReHashAndVerify, MarkAsValid, the chop functions) is proved, for every pollard of up to 2^62 leaves whose root nodes and child pointers are well-formed and every proof with fewer than 2^31 targets, to change neither the leaf count, nor the roots, nor any stored hash, and on rejection to leave every child pointer (which carry the marks of remembered leaves) and the position map as they were, with nothing new referring to them. Proved of runs that do not stop at an assert. Assumes that the operations before Verify leave such a pollard (the bounded runs exercise it), that a shared_ptr that nothing refers to is freed. Trusts Verus/Z3, clang\'s AST, the mechanical extraction (two arenas of nodes) and the std:: shims.'
NOTES['C08']='Accumulator::Remove with all its callees in the full forest (SwapSubTrees, SwapRange, UpdatePositionMapForSubtreeSwap, UpdatePositionMapForRange, Node::Parent, Node::ReHash, FinalizeRemove) is proved, for all correct forests of fewer than 2^31 leaves and every target list, to accept exactly the valid lists and then to remove exactly the targets and keep the forest invariant (hashes, roots, position map). Uses the contracts of Transform (C05) and ParentHash (C19). Trusts Verus/Z3, clang\'s AST, the mechanical extraction and the std:: shims (map, vector, shared_ptr as heap index).'
NOTES['C09']='RamForest::Undo with all its callees (UndoTransform, SwapRange, UpdatePositionMapForRange, Node::ReHash, Node::Parent, RestoreRoots) is proved, for every modification of a correct forest of fewer than 2^31 leaves, to succeed and to give back the leaf count, every leaf, inner node and root and the position map; Modify is proved to write exactly the specified undo data. Uses the contracts of Transform/UndoTransform (C05, C06) and ParentHash (C19). Trusts Verus/Z3, clang\'s AST, the mechanical extraction and the std:: shims.'
NOTES['C12']='RamForest::Commit, Restore, RestoreRoots, the file constructor and the destructor are proved, for every correct forest of fewer than 2^31 leaves and any earlier content of the file, to write the leaf count and every stored hash in its place, and to read back from such a file the same leaf count, leaves, inner nodes, roots and position map. Assumes that file operations succeed, that what a closed file held is what a later open finds, and that an existing file was written by a correct forest. Trusts Verus/Z3, clang\'s AST, the mechanical extraction, the file shims (std::fstream as bytes and a position) and the std:: shims.'
NOTES['C20']='Proved for the full forest: Remove and both Modify functions reject every unacceptable target list before anything changes; the queries are const functions whose receivers are immutable in the extracted text. Proved for the pollard: CountNodes, NumCachedLeaves, Roots, NumLeaves, Read, ReadLeafRange, Prove change nothing. Bounded: Modify and Remove of the pollard, ComparePositionMap, on the stated finite input set.'
NOTES['C17']='Proved (unit polmod), for every pollard of up to 2^62 leaves whose cached nodes all hold the forest\'s hashes: the constructors, Add (with NewLeaf, MergeRoot, InternalNode::Prune, DeadEnd), Prune, a rejected Verify keep every cached hash and the roots equal to the forest\'s; ReadSiblings, Read, ReadLeafRange, Roots, NumLeaves report them. Bounded: Remove and the caching done by an accepted Verify, on the stated finite input set.'
NOTES['C18']='Proved (unit polmod), for every pollard of up to 2^62 leaves: Add, Prune and a rejected Verify keep "every remembered leaf is at its position with its whole proof cached" and the position map; Prove succeeds exactly for distinct remembered leaves and then returns the proof the forest would. Bounded: Remove and accepted Verify, on the stated finite input set.'
NOTES['C05']='ForestState::Transform with all its helpers (ComputeNextRowTargets, MakeSwaps, MakeCollapse, ConvertCollapses, SwapInRow, SwapIfDescendant) is proved, for all leaf counts up to 2^62 and every accepted target list, to return swaps of existing subtrees that move exactly the deleted leaves behind the remaining ones. Trusts Verus/Z3, clang\'s AST, the mechanical extraction and the std:: shims (std::sort yields a sorted permutation).'
NOTES['C06']='ForestState::UndoTransform and Swap::ToLeaves are proved, for all leaf counts up to 2^62 and every accepted target list, to return the leaf ranges of the remove transformation\'s subtrees, which in reverse order take every leaf back. Trusts Verus/Z3, clang\'s AST, the mechanical extraction and the std:: shims.'
NOTES['C03']='ForestState::ProofPositions is proved, for all leaf counts up to 2^62 and every ascending list of fewer than 2^31 existing leaves, to return exactly the specified computed and proof positions. Trusts Verus/Z3, clang\'s AST, the mechanical extraction and the std:: shims.'
NOTES['C01']='Every position function is proved, for all leaf counts up to 2^62 and all nodes, equal to the mathematical numbering. Trusts Verus/Z3, clang\'s AST, the mechanical extraction and the C++ integer shims.'
NOTES['C02']='Root counting, root positions, root lists, paths and root index are proved for all leaf counts up to 2^62 and all existing nodes. Trusts Verus/Z3, clang\'s AST, the mechanical extraction and the C++ integer shims.'
NOTES['C04']='CheckTargetsSanity and BatchProof::CheckSanity are proved, for all leaf counts up to 2^62 and all lists, to accept exactly the specified proofs. Trusts Verus/Z3, clang\'s AST, the mechanical extraction and the std:: shims.'
NOTES['C10']='Serialize and Unserialize of BatchProof are proved against the byte layout for all contents below 2^32 entries and all byte strings; the round trip and the uniqueness of the encoding are lemmas over those contracts. Trusts Verus/Z3, clang\'s AST, the mechanical extraction, the std:: and memory shims (little-endian host).'
NOTES['C11']='Serialize and Unserialize of UndoBatch are proved against the byte layout for all contents below 2^32 entries and all byte strings; the round trip and the uniqueness of the encoding are lemmas over those contracts. Trusts Verus/Z3, clang\'s AST, the mechanical extraction, the std:: and memory shims (little-endian host).'
NOTES['C19']='The compression function, Write, Finalize, Finalize256, Reset and Accumulator::ParentHash are proved against FIPS 180-4 for all messages below 2^61 bytes and every split into writes. Trusts Verus/Z3, clang\'s AST, the mechanical extraction and the memory shims (little-endian host); the USE_ASM path is not built.'
NOTES['C07']='RamForest::Add with all its callees (Accumulator::Add, NewLeaf, MergeRoot, position arithmetic, ParentHash) is proved to keep the forest invariant, for all forests of fewer than 2^31 leaves after adding; ParentHash is used through the contract proved for C19. Trusts Verus/Z3, clang\'s AST, the mechanical extraction (Accumulator and RamForest as one class, nodes in an arena) and the std:: shims.'
NOTES['C13']='Accumulator::Prove is proved, for all correct forests of fewer than 2^31 leaves and all hash lists, to succeed exactly for distinct contained leaves and to return exactly the specified proof; that such a proof recomputes the roots is a lemma. That the forest is correct is C07/C08/C09. Trusts Verus/Z3, clang\'s AST, the mechanical extraction and the std:: shims.'
for _p in PROPS:
    if PROPS[_p]['level']!='proof': NOTES.setdefault(_p,'Bounded: the contracts of this property are executed on the real code for the stated finite input set; nothing is claimed beyond it.')
NOT_APPLICABLE=[]
