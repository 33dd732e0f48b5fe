#!/usr/bin/env python3
"""Mutation campaign: which one-place mutants of /repo does no check notice?
usage: campaign.py OUT.jsonl [file.go ...]   (development tool, not a check)"""
import json, os, subprocess, sys, tempfile, shutil, re, threading, queue, time
HERE=os.path.dirname(os.path.abspath(__file__)); HARNESS=os.path.join(HERE,"..","..","harness")
MUT="/tmp/mutate"
ENV=dict(os.environ,GOFLAGS="-mod=mod",GOPROXY="off",GOTOOLCHAIN="local")
MAP={"ubuf.go":["C01","C02"],"proc_frame_decoder.go":["C03","C04","C08","C07","C13","C14","C20"],"endp_default.go":["C18","C17","C06","C11","C20"],
"proc_codec":["C05","C08","C13","C07"],"proc_heartbeat.go":["C15","C07","C13","C20","C21"],"proc_stat_counter.go":["C16","C07","C13","C08","C20"],
"proc_lowerdeck.go":["C10","C11","C13","C20","C21"],"proc_upperdeck.go":["C11","C06","C18","C13","C20","C21"],"ustack_default.go":["C09","C11","C17","C07","C20"],
"tran_tcp.go":["C12","C18","C20"],"tran_unix.go":["C12","C18","C20"],"tran_reference.go":["C13","C20"],"proc_session":["C06","C07"],"utils.go":["C17"],"feat_base.go":["C17"],
"proc_base.go":["C17","C07"],"proc_filter":["C14"],"proc_forwarder":["C14"],"proc_echo":["C14"],"proc_loopback":["C14"],"proc_discarder":["C14"],"proc_load":["C07","C08"]}
ALL=["C%02d"%i for i in range(1,19)]
SCALE=os.environ.get("SCALE","100")
def order(f):
    for k,v in MAP.items():
        if f.startswith(k): return v+([x for x in ALL if x not in v and not (x in("C01","C02") and f!="ubuf.go")] if os.environ.get("EVERY") else [])
    return ALL
def runprop(binary,prop,tmp,race=False):
    out=os.path.join(tmp,prop+("r" if race else "")); os.makedirs(out)
    e=dict(ENV,VERIF_PROP=prop,VERIF_OUT=out,VERIF_SHARD_SEED="11",VERIF_SCALE_PCT=SCALE,VERIF_SECONDS="60",VERIF_CASE_SECONDS="25",VERIF_SHRINK_SECONDS="0",GOMAXPROCS="3",GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
    if race: e["VERIF_RACE"]="1"
    try:
        with open(os.path.join(out,"log"),"wb") as lg:
            p=subprocess.Popen([binary,"-test.run=TestWorker","-test.timeout=0"],cwd=out,env=e,stdout=lg,stderr=lg,start_new_session=True)
            p.wait(timeout=150)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.wait(); return "timeout"
    rf=os.path.join(out,"result.json")
    if not os.path.exists(rf): return "death"
    r=json.load(open(rf))
    if r["failure"]: return "fail:"+r["failure"]["part"]+": "+r["failure"]["message"][:150]
    return None
def one(line,results):
    path,n,ln,desc=line.split(":",3); f=os.path.basename(path)
    tmp=tempfile.mkdtemp(prefix="mut-")
    try:
        m=os.path.join(tmp,f)
        if subprocess.run([MUT,"-make",n,path,m],stderr=subprocess.DEVNULL).returncode: return
        ov=os.path.join(tmp,"ov.json"); json.dump({"Replace":{path:m}},open(ov,"w"))
        b=os.path.join(tmp,"w.test")
        p=subprocess.run(["go","test","-c","-overlay",ov,"-o",b,"."],cwd=HARNESS,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if p.returncode: results(dict(m=line,res="nocompile")); return
        if f in("ubuf.go",):
            try:
                p=subprocess.run(["go","test","-overlay",ov,"-timeout","60s","."],cwd="/repo",env=ENV,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=120)
                if p.returncode: results(dict(m=line,res="unittest")); return
            except subprocess.TimeoutExpired: results(dict(m=line,res="unittest")); return
        for prop in order(f):
            r=runprop(b,prop,tmp)
            if r: results(dict(m=line,res="killed",by=prop,how=r)); return
        br=os.path.join(tmp,"wr.test")
        subprocess.run(["go","test","-c","-race","-overlay",ov,"-o",br,"."],cwd=HARNESS,env=ENV,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
        for prop in (["C02"] if f=="ubuf.go" else ["C19"]):
            r=runprop(br,prop,tmp,True)
            if r: results(dict(m=line,res="killed",by=prop,how=r)); return
        results(dict(m=line,res="SURVIVED"))
    finally:
        shutil.rmtree(tmp,ignore_errors=True)
def main():
    out=sys.argv[1]; files=sys.argv[2:] or [x for x in sorted(os.listdir("/repo")) if x.endswith(".go") and not x.endswith("_test.go")]
    lines=subprocess.run([MUT]+["/repo/"+x for x in files],stdout=subprocess.PIPE,text=True).stdout.splitlines()
    done=set()
    if os.path.exists(out): done={json.loads(l)["m"] for l in open(out)}
    q=queue.Queue(); [q.put(l) for l in lines if l not in done]
    lk=threading.Lock(); fo=open(out,"a")
    def results(r):
        with lk: fo.write(json.dumps(r)+"\n"); fo.flush()
    def w():
        while True:
            try: l=q.get_nowait()
            except queue.Empty: return
            one(l,results)
    ts=[threading.Thread(target=w) for _ in range(int(os.environ.get("J","6")))]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
