"""Recording runs of the arithmetic stages for StageTrace.tla."""
import vlib, pipe


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def record(s, cfg, kind, lat, groups, r, gaps, w=0, tab=None, ends=(), rowlen=0):
    """groups: list of lists of lane inputs.  Random garbage is applied while valid is low."""
    s.reset()
    bd = cfg["bit_depth"]
    ps = len(groups[0])
    rows = []
    todo = list(groups)
    n = tail = 0
    while todo or tail < lat + 3:
        v = 1 if todo and not (gaps and r.random() < gaps) else 0
        if not todo:
            tail += 1
        g = todo[0] if v else groups[r.randrange(len(groups))]
        end = (1 if n in ends else 0) if v else r.getrandbits(1)
        s.set("i_valid_in", v)
        s.set("i_end_in", end)
        if kind == "predict":
            s.set("i_new_row", int(n * ps % w == 0) if v else r.getrandbits(1) and n * ps % w == 0)
        for k in range(ps):
            x = g[k]
            if kind == "predict":
                s.set("i_pixels_in%d" % k, x)
            elif kind == "diff":
                s.set("i_pixels_in%d" % k, x[0])
                s.set("i_predics_in%d" % k, x[1])
            elif kind == "norm":
                s.set("i_vals_in%d" % k, x)
                s.set("i_vals_in_mns%d" % k, x - 1)
            elif kind == "encode":
                s.set("i_ssssx%d" % k, x[0])
                s.set("i_vals_in%d" % k, x[1])
            elif kind == "merge":
                s.set("i_encs_in%d" % k, x[0])
                s.set("i_encs_in_ctr%d" % k, x[1])
        s.cycle()
        vo, eo = s.get("o_valid_out"), s.get("o_end_out")
        out = []
        if vo:
            if kind == "merge":
                c, val = s.get("o_enc_out_ctr"), s.get("o_enc_out")
                out = bits(val, c) if val >> c == 0 else [2]
            else:
                for k in range(ps):
                    if kind == "predict":
                        out.append([s.get("o_pixels_out%d" % k), s.get("o_predics_out%d" % k)])
                    elif kind == "diff":
                        out.append([sgn(s.get("o_vals_out%d" % k), bd + 1), s.get("o_vals_out_mns%d" % k)])
                    elif kind == "norm":
                        out.append([s.get("o_ssssx%d" % k), s.get("o_vals_out%d" % k)])
                    else:
                        out.append([s.get("o_encs_out%d" % k), s.get("o_encs_ctr%d" % k)])
        gin = [bits(*x) for x in g] if kind == "merge" else list(g)
        rows.append([v, end, gin if v else [], vo, eo if vo else 0, out])
        if v:
            todo.pop(0)
            n += 1
    return dict(kind=kind, bd=bd, w=w, lat=lat, tab=[list(x) for x in (tab or pipe.DEFAULT_CODES)], rows=rows)


def bits(v, n):
    return [(v >> (n - 1 - i)) & 1 for i in range(n)]


def conform(c, key, traces, info):
    def replay(r):
        t = int(vlib.statevar(r.trace[-1], "t"))
        i = int(vlib.statevar(r.trace[-1], "i"))
        return {"info": info[t - 1], "rows": traces[t - 1]["rows"][max(0, i - 12):i]}
    c.count("cycles_recorded", sum(len(x["rows"]) for x in traces))
    return c.conform("StageTrace", key, {"traces": traces}, ntraces=len(traces), replayer=replay, view="View")
