"""Decoys: calls made next to the real ones, whose answers are discarded.

A library whose objects and calls are independent of each other answers the real
calls the same way with or without them. Two kinds, chosen per case:
  twin input  - the operation is first called on the same object with an input
                that differs a little from the real one (same size and ends);
  twin object - a second object with the same array sizes but another interval,
                resolution, or parameters is created before or after the real one,
                used with the same inputs just before it, and destroyed early or late.
"""
import numpy as np

PURE = {"cheb_to_ch", "cheb_to_po", "cheb_der", "cheb_filter", "fd_der", "fd_der2", "fd_filter",
        "sph_to_Ylm", "sph_to_Sph", "sph_to_Ylm_c", "sph_to_Sph_c", "sph_lap", "sph_dphi", "sph_X", "sph_raise",
        "sph_lower", "sph_filter", "sph_power", "grid_op", "grid_filter", "grid_res", "grid_tv", "eom_k", "eom_rho"}
NEW = {"cheb_new", "fd_new", "sph_new", "grid_new", "params_new", "eom_new"}
READ = {"id", "sph_ylm", "grid_ylm", "cheb_info", "fd_info", "sph_info", "grid_info", "grid_coords"}


class Decoy:
    def __init__(self, seed):
        self.r = np.random.default_rng(seed)
        k = int(self.r.integers(0, 6))
        self.twin_in = k in (1, 3, 5)
        self.twin_ob = k in (2, 3, 4)
        self.early = k == 4
        self.first = bool(self.r.integers(0, 2))
        self.map = {}           # real handle -> (kind, decoy handle, description)
        self.desc = {}

    # ---- objects
    def before_new(self, s, op, I, D, S):
        if not self.twin_ob or not self.first:
            return None
        return self._make(s, op, I, D, S)

    def after_new(self, s, op, I, D, S, h, made):
        self.desc[h] = (op, list(I), list(D))
        if not self.twin_ob:
            return
        if made is None and not self.first:
            made = self._make(s, op, I, D, S)
        if made is None:
            return
        if self.early and op in ("cheb_new", "fd_new", "sph_new", "grid_new"):
            s.call(op[:-4] + "_del", I=[made[0]])
            return
        self.map[h] = made

    def _range(self, lo, up):
        w = up - lo
        k = int(self.r.integers(0, 4))
        if k == 0:
            return lo, up + w
        if k == 1:
            return -up, -lo
        if k == 2:
            return lo - w, up - w
        return lo - 0.5 * w, up

    def _res(self, nl, nm, nlat, nphi):
        k = int(self.r.integers(0, 3))
        if k == 0 and nl > 1:
            nl -= 1
            nm = min(nm, nl)
        elif k == 1 and nm > 0:
            nm -= 1
        elif k == 2 and nl + 1 < nlat:
            nl += 1
        elif 2 * (nm + 1) < nphi and nm + 1 <= nl:
            nm += 1
        elif nl > 1:
            nl -= 1
            nm = min(nm, nl)
        else:
            nlat += 1
        return [nl, nm, nlat, nphi]

    def _make(self, s, op, I, D, S):
        if op in ("cheb_new", "fd_new"):
            n = int(I[0])
            lo, up = D
            if self.r.integers(0, 3):
                lo, up = self._range(lo, up)
            else:
                n += 1 + int(self.r.integers(0, 3))
            return s.call(op, I=[n], D=[lo, up]).I[0], {"n": n}
        if op == "sph_new":
            v = self._res(*[int(x) for x in I])
            h = s.call(op, I=v).I[0]
            return h, {"res": v, "nYlm": int(s.call("sph_info", I=[h]).I[3])}
        if op == "grid_new":
            cl, R0, R1 = D
            nx, res = int(I[0]), [int(x) for x in I[1:]]
            k = int(self.r.integers(0, 5))
            if k == 0:
                R0 += 0.25 * (R1 - R0)
            elif k == 1:
                cl *= 1.5
            elif k == 2:
                cl, R0, R1 = 2 * cl, 2 * R0, 2 * R1
            elif k == 3:
                res = self._res(*res)
            else:
                nx += 1
            h = s.call(op, D=[cl, R0, R1], I=[nx] + res).I[0]
            return h, {"nx": nx, "res": res}
        if op == "params_new":
            p = S[0] + ".decoy"
            with open(S[0]) as f, open(p, "w") as o:
                for line in f:
                    w = line.split()
                    if len(w) == 2 and w[0] in ("km1", "k0", "k1", "k2", "V2", "V3", "V4", "amp"):
                        line = "%s %r\n" % (w[0], float(w[1]) + 0.375)
                    elif len(w) == 2 and w[0] == "black_hole_spin":
                        x = float(w[1])
                        line = "%s %r\n" % (w[0], -0.5 * x if abs(x) > 1e-3 else 0.01)
                    o.write(line)
            return s.call(op, S=[p]).I[0], {}
        # eom
        g, p = int(I[0]), int(I[1])
        dg = self.map.get(g)
        dp = self.map.get(p)
        if dg is None and dp is None:
            return None
        gh = dg[0] if dg is not None else g
        return s.call(op, I=[gh, dp[0] if dp is not None else p]).I[0], {"grid": gh, "of": dg[1] if dg is not None else None}

    # ---- calls
    def _twin(self, A):
        """Another input of the same shape."""
        A = [np.array(a, float) for a in A]
        which = A[:2] if len(A) > 2 else A[:1]
        if len(which) == 2 and self.r.integers(0, 3) == 0:      # only one of the two differs
            q = int(self.r.integers(0, 2))
            which = which[q:q + 1]
        for a in which:
            n = a.size
            k = int(self.r.integers(0, 8))
            if n < 4 or k == 0:
                a *= -0.5
            elif k == 1:                    # same ends, same values in another order
                i, j = 1 + self.r.choice(n - 2, 2, replace=False)
                a[i], a[j] = a[j], a[i]
            elif k == 2:                    # same ends
                a[1:-1] *= 0.5
            elif k == 3:                    # opposite sign: same magnitudes
                a *= -1.0
            elif k == 4:                    # other order: same sums
                a[:] = a[::-1].copy() if self.r.integers(0, 2) else np.roll(a, int(self.r.integers(1, n)))
            elif k == 5:                    # first, middle and last values kept
                b = a.copy()
                a *= 2.0
                for i in (0, (n - 1) // 2, n // 2, n - 1):
                    a[i] = b[i]
            else:                           # one entry
                i = int(self.r.integers(0, n))
                a[i] = 0.5 * a[i] + 0.25 * float(np.max(np.abs(a[np.isfinite(a)]), initial=0.0))
        return A

    def _fit(self, op, I, A, d):
        """Inputs of the sizes the decoy object expects."""
        I = list(I)
        if op.startswith(("cheb", "fd")):
            return I, [np.resize(a, d["n"]) for a in A]
        if op.startswith("sph"):
            nl, nm, nlat, nphi = d["res"]
            if op == "sph_power":
                I[1] = nl
            if op == "sph_to_Ylm_c":
                I[1] = (nl + 1) ** 2
            n = {"sph_to_Sph": 2 * d["nYlm"], "sph_to_Sph_c": 2 * (nl + 1) ** 2, "sph_to_Ylm_c": 2 * nlat * nphi}.get(op, nlat * nphi)
            return I, [np.resize(a, n) for a in A]
        nl, nm, nlat, nphi = d["res"]
        N = d["nx"] * nlat * nphi
        A = [np.resize(a, N) for a in A]
        if op == "grid_op" and I[1] in (6, 7):
            A[1] = np.resize(A[1], d["nx"] * nl)
        return I, A

    def before_call(self, s, op, I, D, A):
        h = int(I[0])
        if op == "id":
            if self.twin_ob and h in self.map:
                s.call(op, I=[self.map[h][0], I[1]], A=A)
            return
        if op in PURE and self.twin_in:
            s.call(op, I=I, D=D, A=self._twin(A))
        if self.twin_ob and h in self.map:
            dh, d = self.map[h]
            if op in PURE:
                if op.startswith("eom"):
                    if d["of"] is not None:
                        _, A = self._fit("grid", I, A, d["of"])
                    s.call(op, I=[dh, d["grid"]], A=A)
                else:
                    J, B = self._fit(op, I, A, d)
                    J[0] = dh
                    s.call(op, I=J, D=D, A=B)
            elif op in ("sph_ylm", "grid_ylm"):
                nl, nm = d["res"][:2]
                l = min(int(I[1]), nl)
                s.call(op, I=[dh, l, min(int(I[2]), l, nm)])
            else:
                s.call(op, I=[dh])
