"""Worker of the C29 monitors: reads requests (JSON lines), drives the extension module, answers what was observed.
Floats travel as the integers of their bits."""
import json, os, struct, sys
import numpy as np

out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)  # whatever the module prints is no answer
import egobox as egx


def f(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def arr(v, flavour=0):
    """v = [shape, bits]; flavour: memory layout"""
    a = np.array(v[1], dtype=np.uint64).view(np.float64).reshape(v[0])
    if flavour == 1:
        a = np.asfortranarray(a)
    elif flavour == 2:  # strided view
        w = np.full([2 * k for k in a.shape], np.nan)
        w[tuple(slice(None, None, 2) for _ in a.shape)] = a
        a = w[tuple(slice(None, None, 2) for _ in a.shape)]
    elif flavour == 3:  # reversed view
        a = np.ascontiguousarray(a[::-1])[::-1]
    return a


def bits(a):
    a = np.asarray(a)
    if a.dtype != np.float64:
        raise TypeError("dtype %s" % a.dtype)
    return [list(a.shape), np.ascontiguousarray(a).reshape(-1).view(np.uint64).tolist()]


def domain(q):
    kind = q["domain"]
    if kind == "lists":
        return [[f(a), f(b)] for a, b in q["limits"]]
    if kind == "array":
        return arr(q["limits_arr"], q.get("flavour", 0))
    r = []
    for t in q["xspecs"]:
        xt = getattr(egx.XType, t["type"])
        if "tags" in t:
            r.append(egx.XSpec(xt, tags=t["tags"]))
        elif t["type"] == "INT":
            r.append(egx.XSpec(xt, [int(v) for v in t["ints"]]))
        elif t["type"] == "ENUM":
            r.append(egx.XSpec(xt, [t["n"]]))
        else:
            r.append(egx.XSpec(xtype=xt, xlimits=[f(v) for v in t["limits"]]))
    return r


FLOATS = {"target"}


def kw(d):
    r = {}
    for k, v in d.items():
        if k == "gp_config":
            r[k] = egx.GpConfig(**kw(v))
        elif k == "recombination":
            r[k] = getattr(egx.Recombination, v)
        elif k == "infill_strategy":
            r[k] = getattr(egx.InfillStrategy, v)
        elif k == "cstr_strategy":
            r[k] = getattr(egx.ConstraintStrategy, v)
        elif k == "q_infill_strategy":
            r[k] = getattr(egx.QInfillStrategy, v)
        elif k == "infill_optimizer":
            r[k] = getattr(egx.InfillOptimizer, v)
        elif k == "method":
            r[k] = getattr(egx.SparseMethod, v)
        elif k in ("theta_init", "cstr_tol"):
            r[k] = [f(x) for x in v]
        elif k == "theta_bounds":
            r[k] = [[f(a), f(b)] for a, b in v]
        elif k in ("doe", "z"):
            r[k] = arr(v)
        elif k in FLOATS:
            r[k] = f(v)
        else:
            r[k] = v
    return r


def poly(fn, x):
    """sum_j a_j (x_j - p_j)^2 + b_j |x_j - q_j|, in this order"""
    y = np.zeros(x.shape[0])
    for j in range(x.shape[1]):
        d = x[:, j] - f(fn["p"][j])
        y = y + (d * d) * f(fn["a"][j])
        y = y + np.abs(x[:, j] - f(fn["q"][j])) * f(fn["b"][j])
    return y


def minimize(q):
    evals = []
    bad = []
    probes = [0, 0]

    def fun(x):
        if not isinstance(x, np.ndarray) or x.dtype != np.float64 or x.ndim != 2:
            bad.append("objective called with %r" % (x,))
        evals.append(bits(x))
        cols = [poly(fn, x) for fn in q["funs"]]
        y = np.stack(cols, axis=1)
        fl = q.get("yflavour", 0)
        if fl == 1:
            y = np.asfortranarray(y)
        elif fl == 2:
            w = np.full((y.shape[0], 2 * y.shape[1]), np.nan)
            w[:, ::2] = y
            y = w[:, ::2]
        x[:] = np.nan  # the array belongs to the callee
        return y

    def cstr(k):
        c, d = [f(v) for v in q["fcstrs"][k]["c"]], f(q["fcstrs"][k]["d"])

        def g(x, return_grad):
            if not isinstance(x, np.ndarray) or x.dtype != np.float64 or x.shape != (len(c),) or not isinstance(return_grad, bool):
                bad.append("constraint called with %r %r" % (x, return_grad))
            probes[return_grad] += 1
            if return_grad:
                return np.array(c)
            v = -d
            for j in range(len(c)):
                v = v + c[j] * float(x[j])
            return v

        return g

    egor = egx.Egor(domain(q), **kw(q["kw"]))
    opts = dict(q["opts"])
    if "run_info" in opts:
        ri = opts["run_info"]
        opts["run_info"] = egx.RunInfo(ri["fname"], ri["num"]) if "num" in ri else egx.RunInfo(ri["fname"])
    if q["fcstrs"]:
        opts["fcstrs"] = [cstr(k) for k in range(len(q["fcstrs"]))]
    r = egor.minimize(fun, **opts)
    return dict(evals=evals, bad=bad[:3], probes=probes, x_opt=bits(r.x_opt), y_opt=bits(r.y_opt), x_doe=bits(r.x_doe), y_doe=bits(r.y_doe))


def suggest(q):
    egor = egx.Egor(domain(q), **kw(q["kw"]))
    x, y = arr(q["x"], q["flavour"]), arr(q["y"], q["flavour"])
    s = egor.suggest(x, y)
    same = bits(x) == q["x"] and bits(y) == q["y"]
    return dict(suggested=bits(s), unchanged=same)


def best(q):
    egor = egx.Egor(domain(q), **kw(q["kw"]))
    x, y = arr(q["x"], q["flavour"]), arr(q["y"], q["flavour"])
    i = egor.get_result_index(y)
    r = egor.get_result(x, y)
    return dict(index=i, x_opt=bits(r.x_opt), y_opt=bits(r.y_opt), x_doe=bits(r.x_doe), y_doe=bits(r.y_doe))


def sampling(q):
    k = {} if q["seed"] is None else {"seed": q["seed"]}
    d = domain(q)
    if q["method"] == "lhs()":
        s = egx.lhs(d, q["n"], **k)
    else:
        s = egx.sampling(getattr(egx.Sampling, q["method"]), d, q["n"], **k)
    return dict(x=bits(s))


def surrogate(q):
    if q["sparse"]:
        b = egx.SparseGpMix(**kw(q["kw"])) if not q["builder"] else egx.SparseGpx.builder(**kw(q["kw"]))
        cls = egx.SparseGpx
    else:
        b = egx.GpMix(**kw(q["kw"])) if not q["builder"] else egx.Gpx.builder(**kw(q["kw"]))
        cls = egx.Gpx
    x, y, xq = arr(q["x"], q["flavour"]), arr(q["y"], q["flavour"]), arr(q["xq"], q["flavour"])
    if q["flat_x"]:
        x = x[:, 0]
    if q["flat_y"]:
        y = y[:, 0]
    m = b.fit(x, y)

    def obs(m):
        r = dict(
            predict=bits(m.predict(xq)),
            predict_var=bits(m.predict_var(xq)),
            predict_gradients=bits(m.predict_gradients(xq)),
            predict_var_gradients=bits(m.predict_var_gradients(xq)),
            thetas=bits(m.thetas()),
            variances=bits(m.variances()),
            likelihoods=bits(m.likelihoods()),
        )
        if not q["sparse"]:
            r["dims"] = list(m.dims())
            a, b = m.training_data()
            r["xt"], r["yt"] = bits(a), bits(b)
        return r

    r = dict(fitted=obs(m), str=str(m), repr=repr(m))
    if q["sample"]:
        try:
            r["sample"] = list(m.sample(xq, 5).shape)
        except BaseException as e:
            r["sample_error"] = repr(e)[:300]
    for ext in ("json", "bin"):
        p = os.path.join(q["dir"], "model." + ext)
        r["saved_" + ext] = m.save(p)
        r["loaded_" + ext] = obs(cls.load(p))
    r["save_bad"] = m.save(os.path.join(q["dir"], "none", "model.json"))
    return r


OPS = dict(minimize=minimize, suggest=suggest, best=best, sampling=sampling, surrogate=surrogate)

for line in sys.stdin:
    q = json.loads(line)
    try:
        r = OPS[q["op"]](q)
    except BaseException as e:
        r = dict(error="%s: %s" % (type(e).__name__, str(e)[:500]))
    out.write(json.dumps(r) + "\n")
    out.flush()
