#!/usr/bin/env python3
# campaign.py stage1|stage2 : a development aid (no check uses it). Works in /tmp/mut on copies of /repo and /verif.
import json,os,random,subprocess,sys,threading,queue,shutil,time,signal
W='/tmp/mut'; ENV=dict(os.environ,VERIF_SEED='1')
FN={ # function -> checks to try, in order
'AdvanceStateToNextSlot':'C16 C03 C01 C17','ValidatorCleanup':'C09 C16 C01 C10','getFeeSchedule':'C17','applyFeeScheduleUpTo':'C17 C15','validateFullBlockConfig':'C17 C16',
'SaveToJson':'C14 C13 C26','writeFileAtomic':'C14 C13','LoadFromJson':'C13 C15 C26','LoadFromPath':'C13 C15 C14','LoadFromBytes':'C15 C13','checkStateIsComplete':'C15','checkValidatorsAreComplete':'C15',
'LoadGivenState':'C13 C26','FreezeCheckpoint':'C11 C12 C30','LatestCommitedSlot':'C30 C23 C26','latestCommitedSlotLockFree':'C30 C23 C26','LatestCommitedState':'C30 C23','IsOracleInSyncWithChain':'C30 C20',
'RunOnchainReconciliation':'C25 C26','RunOffchainReconciliation':'C25 C26','GetUniqueWithdrawalAddresses':'C25','CanValidatorSubscribeToPool':'C04 C03','hashStateLockFree':'C13 C15',
'isSubscribed':'C03 C04 C05','isBanned':'C06 C03','isTracked':'C03','isCollateralEnough':'C04','handleDonations':'C02 C01','handleCorrectBlockProposal':'C02 C03 C01','handleBlsCorrectBlockProposal':'C02 C08 C01',
'handleManualSubscriptions':'C04 C03 C01','handleManualUnsubscriptions':'C05 C01','handleManualBans':'C06 C01','handleManualUnbans':'C06','handleBanValidator':'C06 C03 C01','handleMissedBlock':'C03','addSubscription':'C04 C03 C02',
'consolidateBalance':'C02 C07 C01','NewOracle':'C17 C13 C01','State':'C18 C01','IsCheckpoint':'C30 C23','StateWithHash':'C13 C18','StateSnapshot':'C18 C20','ConfigSnapshot':'C18 C20','snapshotLockFree':'C16 C18 C20','copyBigInt':'C16 C18',
'GetWithdrawalAndType':'C04 C03 C08','advanceStateMachine':'C03 C06','getMerkleRootIfAny':'C13 C20 C11',
'RefreshBeaconValidators':'C20 C22 C26','Validators':'C18 C20','GetRetryOpts':'C22 C20 C26','GetConfigFromContract':'C27','decodeInitialPoolFee':'C27','decodePoolFeeFromInitArgs':'C27','findInitializeInCreationData':'C27','NewOnchain':'C27 C22','GetSlotByBlock':'C20',
'UpdateContractMerkleRoot':'C23','IsAddressWhitelisted':'C23','GetAddressToVotedReport':'C23','GetQuorum':'C23 C22','GetAddressEthBalance':'C23','AreNodesInSync':'C22 C26','main':'C26 C23 C15','mainLoop':'C26 C23','isCheckpointPending':'C26',
'handleOnchainMerkleProof':'C21 C24 C20','handleValidatorRelayers':'C28 C24','ApplyNonFinalizedState':'C29','GetSubscriptionsTillHead':'C29','GetUnsubscriptionsTillHead':'C29','GetSubInBlock':'C29','GetUnsubInBlock':'C29','OracleReady':'C21 C20','handleStatus':'C20 C24',
'IsValidIndex':'C24 C20','IsValidAddress':'C24 C20','IsValidPubkey':'C24 C28','AreAddressEqual':'C20 C24 C29','handleMemoryValidatorsByWithdrawal':'C20 C29 C24','StartHTTPServer':'C26 C20','StringToBlsKey':'C28 C20','DecryptKey':'C23',
}
for f in 'determineRewardMethod handleElectraRewardDistribution handleFork1RewardDistribution handlePreFork1RewardDistribution increaseAllPendingRewards increaseValidatorPendingRewards increaseValidatorAccumulatedRewards sendRewardToPool resetPendingRewards getEligibleValidators'.split(): FN[f]='C02 C01 C09'
FILE={'oracle/oracle.go':'C03 C02 C01 C16','oracle/onchain.go':'C22 C29 C26','oracle/block.go':'C08 C02 C22 C10','oracle/merklelizer.go':'C11 C30','oracle/types.go':'C13 C15','api/api.go':'C20 C24','main.go':'C26 C23','utils/utils.go':'C08 C04 C11 C22 C20'}

def clean(i):
    d='%s/r%s'%(W,i)
    shutil.rmtree(d,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',d]); subprocess.check_call(['git','-C',d,'checkout','-q','--','*.go']); return d

def apply(d,m):
    p=d+'/'+m['File']; b=open('/repo/'+m['File'],'rb').read()
    assert b[m['Off']:m['End']].decode()==m['Old']
    open(p,'wb').write(b[:m['Off']]+m['New'].encode()+b[m['End']:])
def undo(d,m): shutil.copy('/repo/'+m['File'],d+'/'+m['File'])

def run(cmd,cwd,t,env=ENV):
    p=subprocess.Popen(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,start_new_session=True)
    try: o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,signal.SIGKILL); p.communicate(); return 124,'timeout'

def stage1(n,seed,par):
    ms=[json.loads(l) for l in open(W+'/all.jsonl')]
    for i,m in enumerate(ms): m['id']=i
    done={json.loads(l)['id'] for l in open(W+'/stage1.jsonl')} if os.path.exists(W+'/stage1.jsonl') else set()
    random.Random(seed).shuffle(ms)
    cnt={}; pick=[]
    for m in ms:
        if m['id'] in done: continue
        if m['Func'] in ('logConfig','SetEvents') or m['File']=='oracle/types.go' and m['Kind']!='iffalse' and random.random()<.5: continue
        k=(m['File'],m['Func']); 
        if cnt.get(k,0)>=max(4,n//60): continue
        cnt[k]=cnt.get(k,0)+1; pick.append(m)
        if len(pick)>=n: break
    q=queue.Queue(); [q.put(m) for m in pick]; lock=threading.Lock(); out=open(W+'/stage1.jsonl','a')
    def work(i):
        d=clean(i)
        while True:
            try: m=q.get_nowait()
            except queue.Empty: break
            apply(d,m)
            rc,o=run(['go','build','./...'],d,120)
            res='nobuild'
            if rc==0:
                rc,o=run(['go','test','./oracle','./api','./utils'],d,90)
                res='survived' if rc==0 else 'killed'
            undo(d,m); m['res']=res
            with lock: out.write(json.dumps(m)+'\n'); out.flush()
        shutil.rmtree(d)
    ts=[threading.Thread(target=work,args=(i,)) for i in range(par)]; [t.start() for t in ts]; [t.join() for t in ts]

def stage2():
    d=clean('s2'); h=W+'/h'
    done={json.loads(l)['id'] for l in open(W+'/stage2.jsonl')} if os.path.exists(W+'/stage2.jsonl') else set()
    while True:
        todo=[m for m in map(json.loads,open(W+'/stage1.jsonl')) if m['res']=='survived' and m['id'] not in done and m['Kind']!='nofatal']
        if not todo:
            if os.path.exists(W+'/stop'): return
            time.sleep(20); continue
        if os.path.exists(W+'/stop'): return
        m=random.choice(todo); done.add(m['id'])
        shutil.rmtree(h,ignore_errors=True); os.makedirs(h+'/evidence')
        for x in ('harness','tools','run.sh','known_findings.txt'): subprocess.check_call(['cp','-a','/verif/'+x,h+'/'])
        subprocess.check_call(['sed','-i','s#=> /repo#=> %s#'%d,h+'/harness/go.mod']); subprocess.check_call(['sed','-i','s#/repo\\b#%s#g'%d,h+'/run.sh',h+'/tools/overlay.py'])
        apply(d,m); res='MISSED'; tried=[]; t0=time.time()
        for c in (FN.get(m['Func']) or FILE[m['File']]).split():
            rc,o=run(['bash',h+'/run.sh',c],h,850); tried.append('%s:%d'%(c,rc))
            if rc==1:
                res='caught '+c; m['how']=[l for l in o.splitlines() if l.startswith(c+':')][:1]; break
            if rc not in (0,1): m['odd']=o[-400:]
        undo(d,m); m['res']=res; m['tried']=tried; m['sec']=int(time.time()-t0)
        open(W+'/stage2.jsonl','a').write(json.dumps(m)+'\n')
if sys.argv[1]=='stage1': stage1(int(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4]))
else: stage2()
