from build import *
from forest import ForestTr, ForestX
from pollard import PollardTr, PollardX
def unit_state(repo='/repo', ovs=('state_pos.ov','state_root.ov','state_proof.ov'), rs=('prelude.rs','geo.rs','roots.rs','proofpos.rs')):
    return Unit('state',['src/state.cpp'],[('src/state.cpp','CountBits')],list(rs),list(ovs),structs=['ForestState::Swap','ForestState'],repo=repo)
def unit_batch(repo='/repo'):
    return Unit('batch',['src/batchproof.cpp'],[('src/batchproof.cpp','BE32'),('src/batchproof.cpp','BE64')],['prelude.rs','bytes.rs','batch.rs'],['batch.ov'],structs=['BatchProof','UndoBatch'],repo=repo)
def unit_sane(repo='/repo'):
    return Unit('sane',['src/state.cpp','src/batchproof.cpp'],[('src/state.cpp','CountBits')],['prelude.rs','geo.rs','roots.rs','proofpos.rs'],['state_pos.ov','state_root.ov','state_proof.ov','batch_sane.ov'],structs=['ForestState::Swap','ForestState','BatchProof'],repo=repo)
def unit_sha(repo='/repo'):
    return Unit('sha',['src/crypto/sha512.cpp','src/accumulator.cpp'],[('src/crypto/sha512.cpp','sha512'),('src/crypto/sha512.cpp','BE64')],['prelude.rs','bytes.rs','sha_k.rs','sha.rs','sha_inv.rs'],['bytes64.ov','sha.ov','sha_transform.ov','sha_w.ov'],structs=['CSHA512'],repo=repo)
def unit_transform(repo='/repo'):
    return Unit('transform',['src/state.cpp'],[('src/state.cpp','CountBits')],['prelude.rs','geo.rs','roots.rs','proofpos.rs','transform.rs','transrow.rs','transconv.rs','transdet.rs','transundo.rs'],['state_transform.ov'],structs=['ForestState::Swap','ForestState'],repo=repo,assumed=[('state',f,None) for f in STATE_OV])
STATE_OV=('state_pos.ov','state_root.ov','state_proof.ov')
def unit_forest(repo='/repo'):
    return Unit('forest',['src/accumulator.cpp','src/ram_forest.cpp','src/batchproof.cpp'],[('src/ram_forest.cpp','BE64')],['prelude.rs','geo.rs','roots.rs','proofpos.rs','bytes.rs','sha_k.rs','sha.rs','heap.rs','carry.rs','forest.rs','provegen.rs','prove.rs','transform.rs','transrow.rs','transdet.rs','transundo.rs','remove.rs','remrow.rs','undo.rs','file.rs'],['forest.ov','forest_remove.ov','forest_file.ov'],TrClass=ForestTr,XClass=ForestX,structs=['ForestState::Swap','ForestState','BatchProof','UndoBatch','RamForest::Node','RamForest'],repo=repo,
        assumed=[('state',f,None) for f in STATE_OV]+[('transform','state_transform.ov',['ForestState::Transform','ForestState::UndoTransform'])]+[('sha','sha_w.ov',['Accumulator::ParentHash']),('sha','bytes64.ov',['ReadBE64','WriteBE64']),('batch','batch.ov',['BatchProof::new(vec_u64,vec_hash)','UndoBatch::new(u64,vec_u64,vec_hash)'])])
def unit_pollard(repo='/repo'):
    return Unit('pollard',['src/accumulator.cpp','src/pollard.cpp','src/batchproof.cpp'],[],['prelude.rs','geo.rs','roots.rs','proofpos.rs','bytes.rs','sha_k.rs','sha.rs','heap.rs','pollard.rs'],['pollard.ov'],TrClass=PollardTr,XClass=PollardX,structs=['ForestState::Swap','ForestState','BatchProof','Pollard::InternalNode','Pollard::Node','Pollard'],repo=repo,
        assumed=[('state',f,None) for f in STATE_OV]+[('sha','sha_w.ov',['Accumulator::ParentHash']),('sane','batch_sane.ov',None),('batch','batch.ov',['BatchProof::GetSortedTargets','BatchProof::GetHashes','BatchProof::GetTargets'])])
def unit_polmod(repo='/repo'):
    return Unit('polmod',['src/accumulator.cpp','src/pollard.cpp','src/batchproof.cpp'],[],['prelude.rs','geo.rs','roots.rs','proofpos.rs','bytes.rs','sha_k.rs','sha.rs','heap.rs','carry.rs','provegen.rs','pollard.rs','polmod.rs'],['polmod.ov'],TrClass=PollardTr,XClass=PollardX,structs=['ForestState::Swap','ForestState','BatchProof','Pollard::InternalNode','Pollard::Node','Pollard'],repo=repo,
        assumed=[('state',f,None) for f in STATE_OV]+[('sha','sha_w.ov',['Accumulator::ParentHash']),('batch','batch.ov',['BatchProof::new(vec_u64,vec_hash)']),('pollard','pollard.ov',['Pollard::InternalNode::new()','Pollard::InternalNode::new(sp_Pollard_InternalNode,sp_Pollard_InternalNode,hash)','Pollard::Node::new(sp_Pollard_InternalNode,sp_Pollard_InternalNode,sp_Accumulator_Node,u64,u64)','Pollard::InternalNode::Chop'])])
if __name__=='__main__':
    import argparse
    ap=argparse.ArgumentParser(); ap.add_argument('mods',nargs='*'); ap.add_argument('--save',action='store_true'); ap.add_argument('--repo',default='/repo'); ap.add_argument('-u',default='state'); ap.add_argument('--fn'); ap.add_argument('--vac',action='store_true')
    a=ap.parse_args()
    u=globals()['unit_'+a.u](a.repo); u.load(); u.translate()
    for k,v in u.failed.items(): print('OUT OF REACH',k,v)
    os.makedirs('/tmp/vx',exist_ok=True)
    u.emit('/tmp/vx/%s.rs'%a.u)
    ex=[]
    if a.fn: ex=['--verify-function',a.fn]
    r=u.verus(a.mods,extra=ex)
    print('verified',r['verified'],'errors',r['errors'],'wall %.1f'%r['wall'],r.get('rc'))
    for d in r['diags']:
        c=classify(u,d)
        if d['message'].startswith('aborting'): continue
        print(c[0],c[1],'\n   ',c[2][:1500]); 
        print('    lines',[(s['line_start']) for s in d['spans']])
    if r['raw']: print(r['raw'][-2000:])
    if a.vac:
        os.makedirs('/tmp/vx/p',exist_ok=True); print(u.vacuity(a.mods or None,'/tmp/vx/p/%s.rs'%a.u))
    if a.save: u.save_baseline()
