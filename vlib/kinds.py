"""The nine remapping classes behind one interface."""
import numpy as np

from vlib import gen, maps


class Kind:
    def __init__(self, name, cls, mc, source, target):
        self.name, self.cls, self.mc, self.source, self.target = name, cls, mc, source, target
        self.weighted = not (source == "cube" and not mc)      # remap takes a weight map
        self.ring = target in ("ring", "cap")                  # rotate_polar and polar2radial
        self.mask = target == "ring"                           # get_mask_in_bound

    # ---- requests: dict(source=..., target=..., form=..., addzero=...)
    def request(self, rng, small=False, inside=False):
        q = dict(source=self.new_source(rng, small))
        q.update(self.new_target(rng, q["source"], inside))
        return q

    def new_source(self, rng, small=False):
        if self.source == "box":
            return maps.enlarge(rng, maps.box(rng, 5 if small else 9), ("numx", "numy"), .04, 80)
        if self.source == "cube":
            return maps.enlarge(rng, maps.cube(rng, 4), ("numx", "numy", "numz"), .04, 40)
        return dict(nside=int(rng.choice([1, 2, 4] if small else [1, 2, 4, 8, 32])))

    def new_target(self, rng, b, inside=False):
        form, addzero = None, None
        if self.target == "ring":
            d = maps.ring(rng, b, 4, 5, inside=inside)
        elif self.target == "shell":
            d = maps.shells(rng, b, 2, 1, inside=inside)
        elif self.target == "cap":
            d = maps.cap(rng, 3)
        elif self.target == "angbox":
            d = maps.angbox(rng, 4)
        else:
            d = maps.orthobox(rng, 5)
        maps.enlarge(rng, d, {"ring": ("numr", "nump"), "shell": ("numr",), "cap": ("num_alpha", "num_beta")}.get(self.target, ("x_grid", "y_grid")),
                     .1 if self.target == "shell" else .05, 9 if self.target == "shell" else 20)
        if self.mc and self.target in ("ring", "shell"):
            form = "lin" if rng.random() < .6 else "log"
            if form == "log":
                addzero = [None, True, False][rng.integers(0, 3)]
                if d["rmin"] == 0. or rng.random() < .3:
                    d["rmin"] = d["rmax"] * float(gen.loguniform(rng, 1e-3, .5))
                d["numr"] = max(2, d["numr"])
        if not self.mc:
            for k in {"ring": ("rebin_r", "rebin_p"), "shell": ("rebin_r",), "cap": ("rebin_alpha", "rebin_beta")}.get(self.target, ("rebin_x", "rebin_y")):
                if rng.random() < .8:
                    d[k] = int(rng.integers(1, 4))
            if self.target == "shell":
                if rng.random() < .8:
                    d["rebin_shell"] = int(rng.choice([1, 2, 4]))
                for a in "xyz":
                    if rng.random() < .3:
                        d["periodic" + a] = [int(rng.integers(-1, 1)), int(rng.integers(0, 2))]
        return dict(target=d, form=form, addzero=addzero)

    # ---- set-up
    def setup_source(self, o, q):
        b = q["source"]
        if self.source == "box":
            maps.setup_box(o, b)
        elif self.source == "cube":
            maps.setup_cube(o, b)
        else:
            o.setup_map(b["nside"])

    FIXED = {"ring": ("rmin", "rmax", "numr", "nump"), "shell": ("rmin", "rmax", "numr", "nside"),
             "cap": ("alpha_min", "alpha_max", "num_alpha", "num_beta"), "angbox": ("x_length", "x_grid"), "ortho": ("x_length", "x_grid")}

    def target_call(self, o, q):
        """(method, args, kwargs) of the target set-up."""
        d = q["target"]
        fixed = self.FIXED[self.target]
        kw = {k: v for k, v in d.items() if k not in fixed}
        if q["form"] == "log" and q["addzero"] is not None:
            kw["addzero"] = q["addzero"]
        name = {"ring": "setup_polar", "shell": "setup_polar", "cap": "setup_polar_cap"}.get(self.target, "setup_box")
        if q["form"]:
            name += "_" + q["form"]
        return getattr(o, name), [d[k] for k in fixed], kw

    def setup_target(self, o, q):
        f, a, kw = self.target_call(o, q)
        return f(*a, **kw)

    def prepare(self, q, n=30, seed=None, o=None):
        o = self.cls() if o is None else o
        self.setup_source(o, q)
        self.setup_target(o, q)
        if self.mc:
            if seed is not None:
                np.random.seed(seed)
            o.get_weights(n, verbose=False)
        return o

    # ---- maps
    def map_shape(self, q):
        b = q["source"]
        if self.source == "box":
            return (b["numy"], b["numx"])
        if self.source == "cube":
            return (b["numy"], b["numx"], b["numz"])
        return (12 * b["nside"]**2,)

    def map(self, rng, q):
        return rng.normal(size=self.map_shape(q)) * gen.scale(rng, .1, 10.)

    def weights(self, rng, q):
        return rng.uniform(.2, 3., self.map_shape(q))

    def out_shape(self, q):
        d = q["target"]
        if self.target == "ring":
            return (d["nump"], d["numr"])
        if self.target == "shell":
            return (d["numr"], 12 * d["nside"]**2)
        if self.target == "cap":
            return (d["num_beta"], d["num_alpha"])
        return (d.get("y_grid") or d["x_grid"], d["x_grid"])

    # ---- published description
    def published(self):
        c = ["dx", "dy"]
        if self.source in ("box", "cube"):
            c += ["xedges", "yedges", "xmid", "ymid"]
            c += ["x2d", "y2d"] if self.source == "box" else ["zedges", "zmid", "dz", "x3d", "y3d", "z3d"]
        else:
            c = ["nside"]
        if self.target == "ring":
            c += ["redges", "pedges", "rmid", "pmid", "dr", "dp", "r2d", "p2d", "center", "phi_shift"]
        elif self.target == "shell":
            c += ["redges", "rmid", "dr", "nside", "center"]
        elif self.target == "cap":
            c += ["alpha_edges", "beta_edges", "alpha_mid", "beta_mid", "dalpha", "dbeta", "alpha2d", "beta2d", "center", "beta_shift"]
        else:
            c += ["xedges", "yedges", "xmid", "ymid", "dx", "dy", "x2d", "y2d", "center"]
            c += ["alpha"] if self.target == "angbox" else ["radius"]
        return sorted(set(c))

    def describe(self, o):
        return {k: getattr(o, k) for k in self.published()}


def all_kinds(mp):
    mc, dg = mp.montecarlo, mp.densegrid
    return [Kind("mc.Box2Ring", mc.Box2Ring, True, "box", "ring"), Kind("mc.Cube2Shell", mc.Cube2Shell, True, "cube", "shell"),
            Kind("mc.Heal2Ring", mc.Heal2Ring, True, "heal", "cap"), Kind("mc.Heal2Polar", mc.Heal2Polar, True, "heal", "angbox"),
            Kind("dense.Box2Ring", dg.Box2Ring, False, "box", "ring"), Kind("dense.Cube2Shell", dg.Cube2Shell, False, "cube", "shell"),
            Kind("dense.Heal2Ring", dg.Heal2Ring, False, "heal", "cap"), Kind("dense.Heal2Polar", dg.Heal2Polar, False, "heal", "angbox"),
            Kind("dense.Heal2Ortho", dg.Heal2Ortho, False, "heal", "ortho")]
