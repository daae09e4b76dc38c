import sys,json,random
sys.path.insert(0,'/verif')
from sim import rt
rt.setup()
from sim import runner,core,engine
prop=sys.argv[1]; i=int(sys.argv[2]); seed=int(sys.argv[3]) if len(sys.argv)>3 else 1
check=runner.get_check(prop)
p=check.gen(random.Random(f"{seed}:{prop}:{i}"),"quick"); p["_id"]="x"
p["sched"]["trace"]=True; p["sched"]["max_steps"]=60000
ctx=runner.Ctx(p)
v=check.run(p,ctx)
print(v and v.sig); print(v and v.msg[:3000]); print(ctx.probes, ctx.steps, ctx.stats)
import collections
s=core.LAST if hasattr(core,'LAST') else None
if s:
    print(collections.Counter(str(x[2:4]) for x in s.trace).most_common(25))
def stacks():
    import threading,traceback
    fr=sys._current_frames()
    for t in s.tasks:
        if t.state!="dead" and t.ident in fr:
            print("==",t.name,t.what,t.state)
            print("".join(traceback.format_stack(fr[t.ident])[-int(sys.argv[4]):]))
if len(sys.argv)>4: stacks()
