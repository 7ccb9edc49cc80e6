"""Actor-learner training under controlled schedules: poller, learner and actors are tasks of which
one runs at a time.  The model's one parameter counts its updates, and the greedy action is its
value, so an actor's action tells which model it acted by."""
import logging
import os
import random
import time
import warnings

import numpy as np
import torch
from torch import nn

import sched
sched.install()
import dlib  # noqa
import pfrl  # noqa
from pfrl import agents, explorers, replay_buffers  # noqa
from pfrl.action_value import DiscreteActionValue  # noqa
from pfrl.experiments.train_agent_async import train_agent_async  # noqa

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
torch.set_num_threads(1)
S = sched.S
NA = 64
real_sleep = time.sleep


def sleep(x):
    if S.cur is None:
        real_sleep(x)
    else:
        S.point()


time.sleep = sleep


class Fault(Exception):
    pass


class Model(nn.Module):
    def __init__(self):
        super().__init__()
        self.v = nn.Parameter(torch.zeros(1))

    def forward(self, x):
        q = -((torch.arange(NA, dtype=torch.float32) - self.v) ** 2)
        return DiscreteActionValue(q.expand(x.shape[0], NA))


class Mem(pfrl.nn.Recurrent, nn.Module):
    def forward(self, x, h):
        n = int(x.batch_sizes[0])
        return x, torch.zeros(1, n, 1)


class Packed(nn.Module):
    """Model over packed sequences or plain batches."""

    def __init__(self):
        super().__init__()
        self.m = Model()

    def forward(self, x):
        return self.m(x)


def version(m):
    for n, p in m.state_dict().items():
        if n.endswith("v"):
            return dlib.as_int(p.reshape(-1)[0])
    return -777


def scenario(sc, rec, d):
    cfg = sc["cfg"]
    os.makedirs(d, exist_ok=True)
    S.reset(sc.get("sched", []), sc["seed"], sc.get("p", 0.3))
    S.limit = 30000
    if sc.get("forced") is not None:
        S.forced = {int(k): v for k, v in sc["forced"].items()}
    n = cfg["n"]
    live = {}
    faults = dict(sc.get("faults", {}))
    counts = {}

    def ev(op, **kw):
        a = live.get("agent")
        kw.update(m=version(a.model), tg=version(a.target_model), sh=version(live["shared"]),
                  uc=dlib.as_int(live["uc"]._v.value), exc=bool(live["exc"]._f))
        return rec.ev(op, **kw)

    def hit(what):
        counts[what] = counts.get(what, 0) + 1
        return faults.get(what) == counts[what]

    class Opt(torch.optim.SGD):
        def step(self, closure=None):
            if hit("update"):
                ev("fault")
                raise Fault("update")
            S.point()
            a = version(live["agent"].model)
            for g in self.param_groups:
                for p in g["params"]:
                    p.data += 1
            b = version(live["agent"].model)
            e = ev("update", m2=b)
            e["m"] = a

    base = dict(flat=replay_buffers.ReplayBuffer, per=replay_buffers.PrioritizedReplayBuffer,
                epi=replay_buffers.EpisodicReplayBuffer)[cfg["buf"]]
    depth = {}

    def tag(x):
        return dlib.as_int(np.asarray(x).reshape(-1)[0])

    def op(kind, fields, call):
        t = S.cur
        if depth.get(t):
            return call()
        depth[t] = 1
        try:
            S.point()
            f = hit(kind)
            ev("bufin", k=kind, fault=f, n=base.__len__(live["buf"]), **fields)
            S.point()
            if f:
                raise Fault(kind)
            r = call()
            S.point()
            return r
        finally:
            depth[t] = 0
            ev("bufout")

    class Buf(base):
        def append(self, state, action, reward, next_state=None, next_action=None,
                   is_state_terminal=False, env_id=0, **kw):
            return op("append", dict(env=dlib.as_int(env_id) + 1, s=tag(state), a=dlib.as_int(action),
                                     r=dlib.as_int(reward), nx=tag(next_state),
                                     d=bool(is_state_terminal)),
                      lambda: base.append(self, state, action, reward, next_state, next_action,
                                          is_state_terminal, env_id, **kw))

        def stop_current_episode(self, env_id=0):
            return op("stop", dict(env=dlib.as_int(env_id) + 1),
                      lambda: base.stop_current_episode(self, env_id))

        def sample(self, k):
            return op("sample", {}, lambda: base.sample(self, k))

        def __len__(self):
            S.point()
            return base.__len__(self)

    if cfg["buf"] == "epi":
        def sample_episodes(self, k, max_len=None):
            return op("sample", {}, lambda: base.sample_episodes(self, k, max_len))
        Buf.sample_episodes = sample_episodes
    if cfg["buf"] == "per":
        def update_errors(self, errors):
            return op("errors", {}, lambda: base.update_errors(self, errors))
        Buf.update_errors = update_errors

    buf = Buf(sc["cap"])
    live["buf"] = buf

    class Expl(explorers.Greedy):
        def select_action(self, t, greedy_action_func, action_value=None):
            live["t", S.cur] = dlib.as_int(t)
            return greedy_action_func()

    rec_mode = cfg["buf"] == "epi"
    model = pfrl.nn.RecurrentSequential(Mem(), Model()) if rec_mode else Model()
    agent = getattr(agents, sc["kind"])(
        model, Opt(model.parameters(), lr=0.1), buf, 0.9, Expl(), replay_start_size=cfg["rs"],
        minibatch_size=sc["mb"], update_interval=cfg["ui"], target_update_interval=cfg["ti"],
        recurrent=rec_mode, episodic_update_len=sc.get("eul"),
        phi=lambda x: np.asarray(x, dtype=np.float32))
    live["agent"] = agent

    def hook(name):
        def f(env, ag, t):
            if hit(name):
                ev("fault")
                raise Fault(name)
            ev(name, t=dlib.as_int(t), fault=False)
            S.point()
            if not cfg["nu"] and counts.get("update", 0) >= sc.get("maxu", 8):
                # a slow learner from here on
                S.point(blocked_on=lambda: learner.stop_event._f)
        return f

    # a saved model of another age in directory 0
    with torch.no_grad():
        for p in list(agent.model.parameters()) + list(agent.target_model.parameters()):
            p.fill_(cfg["m0"])
    agent.save(os.path.join(d, "d0"))
    with torch.no_grad():
        for p in list(agent.model.parameters()) + list(agent.target_model.parameters()):
            p.fill_(0)
    uc = sched.Value("L", 0)
    kw = {}
    if cfg["nu"]:
        kw["n_updates"] = cfg["nu"]
    make_actor, learner, poller, exc = agent.setup_actor_learner_training(
        n, update_counter=uc, actor_update_interval=cfg["iv"], step_hooks=[hook("hook")],
        optimizer_step_hooks=[hook("ohook")], **kw)
    live.update(uc=uc, exc=exc)
    actors = [make_actor(i) for i in range(n)]
    live["shared"] = actors[0].model
    flushed = [False] * n
    uid = [0]

    def new():
        uid[0] += 1
        return uid[0]

    def instrument(actor, i):
        act, observe = actor.act, actor.observe
        save, load, stats = actor.save, actor.load, actor.get_statistics
        last = {}

        def iact(obs):
            live["t", S.cur] = -1
            sh0 = version(live["shared"])
            a = act(obs)
            ev("act", w=i + 1, sh0=sh0, a=dlib.as_int(a), t=live["t", S.cur], train=bool(actor.training))
            last.update(s=tag(obs), a=dlib.as_int(a))
            S.point()
            return a

        def iobs(obs, r, done, reset):
            if actor.training:
                ev("obs", w=i + 1, s=last["s"], a=last["a"], r=dlib.as_int(r), nx=tag(obs),
                   d=bool(done), reset=bool(done or reset))
                flushed[i] = False
            ok = False
            try:
                observe(obs, r, done, reset)
                ok = True
            except Exception:
                if not S.killed:
                    ev("obsend", w=i + 1, ok=False)
                raise
            if actor.training:
                ev("obsend", w=i + 1, ok=ok)

        def request(k, dd, call):
            e = ev("req", w=i + 1, k=k, d=dd)
            try:
                r = call()
            except Exception:
                ev("rep", w=i + 1, k=k, ok=False)
                raise
            e = dict(w=i + 1, k=k, ok=True)
            if k == "stats":
                st = dict(r) if isinstance(r, list) else {}
                e.update(nu=dlib.as_int(st.get("n_updates")), cum=dlib.as_int(st.get("cumulative_steps")))
            if k == "save":
                try:
                    e.update(sv=file_version(live["savedir", i], "model"),
                             st=file_version(live["savedir", i], "target_model"))
                except Exception:
                    e.update(sv=-1, st=-1)
            ev("rep", **e)
            flushed[i] = True
            return r

        def file_version(path, name):
            sd = torch.load(os.path.join(path, name + ".pt"))
            return dlib.as_int([v for k, v in sd.items() if k.endswith("v")][0].reshape(-1)[0])

        def isave(dirname):
            live["savedir", i] = dirname
            return request("save", i + 1, lambda: save(dirname))

        def iload(dirname):
            b = os.path.basename(dirname)
            return request("load", int(b[1:]), lambda: load(dirname))

        def istats():
            return request("stats", 0, stats)

        actor.act, actor.observe, actor.save, actor.load = iact, iobs, isave, iload
        actor.get_statistics = istats
        return actor

    def obs():
        return np.array([new()], dtype=np.float32)

    def program(i):
        actor = instrument(actors[i], i)
        o = obs()
        for st in sc["progs"][i]:
            if st[0] == "step":
                actor.act(o)
                o = obs()
                actor.observe(o, new() % 7, st[1], st[2])
                if st[1] or st[2]:
                    o = obs()
            elif st[0] == "eval":
                with actor.eval_mode():
                    eo = obs()
                    for k in range(st[1]):
                        actor.act(eo)
                        eo = obs()
                        actor.observe(eo, 0, k == st[1] - 1, False)
            elif st[0] == "stats":
                actor.get_statistics()
            elif st[0] == "save":
                actor.save(os.path.join(d, "d%d" % (i + 1)))
            elif st[0] == "load":
                try:
                    actor.load(os.path.join(d, "d%d" % st[1]))
                except Exception:
                    if not sc.get("soft"):
                        raise
            S.point()

    class Env:
        k = 0

        def __init__(self, i):
            self.script = sc["scripts"][i]

        def reset(self):
            return obs()

        def step(self, a):
            S.point()
            done, need = self.script[self.k % len(self.script)]
            self.k += 1
            return obs(), new() % 7, done, ({"needs_reset": True} if need else {})

        def close(self):
            pass

    tasks = {}

    def on_exit(idx, code, why):
        if code == -15:
            return
        if idx == 0:
            ev("pend", err=code != 0)
        elif idx == 1:
            ev("lend", err=code != 0, stop=bool(learner.stop_event._f))
        else:
            ev("aend", w=idx - 1, err=code != 0, why=why)

    sched.on_exit[0] = on_exit
    real_killpg = os.killpg

    def killpg(pgid, sig):
        ev("killall")
        live["killed"] = True
        S.killed = True
        if S.cur is not None:
            S.cur.dying = True

    os.killpg = killpg
    done = False
    try:
        ptask, ltask = sched.Process(target=poller.run), sched.Process(target=learner.run)
        ptask.start()
        ltask.start()
        if sc["mode"] == "train":
            train_agent_async(
                outdir=d, processes=n, make_env=lambda i, test: Env(i),
                make_agent=lambda i: instrument(make_actor(i), i), steps=sc["steps"],
                eval_interval=None, stop_event=learner.stop_event, exception_event=exc,
                use_shared_memory=sc.get("shm", False))
            ev("lstop")
        else:
            ts = [sched.Process(target=program, args=(i,)) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if sc.get("wait"):
                S.run_until(lambda: not ltask.alive)
            ev("lstop")
        learner.stop()
        ltask.join()
        ev("pstop")
        poller.stop()
        ptask.join()
        done = True
    finally:
        os.killpg = real_killpg
        sched.on_exit[0] = None
        if done and not live.get("killed"):
            ev("final", deadlock=S.deadlocked, flushed=flushed, cum=dlib.as_int(agent.cumulative_steps),
               wanted=bool(sc.get("wait")))


if __name__ == "__main__":
    dlib.run(scenario)
