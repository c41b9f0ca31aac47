"""C19: an image shows the scene, cameras, lights, materials and settings of its
call, whatever was rendered, failed or is rendered besides it."""

import copy
import os
import warnings

import numpy as np
import torch

from .. import instr
from .. import scenes as sc
from .. import threads as th
from ..core import Scenario

th.install()

from pytorch3d.renderer import (  # noqa: E402
    AbsorptionOnlyRaymarcher,
    AlphaCompositor,
    AmbientLights,
    DirectionalLights,
    EmissionAbsorptionRaymarcher,
    FoVOrthographicCameras,
    FoVPerspectiveCameras,
    HardFlatShader,
    HardGouraudShader,
    HardPhongShader,
    Materials,
    MeshRasterizer,
    MeshRendererWithFragments,
    NDCMultinomialRaysampler,
    NormWeightedCompositor,
    OrthographicCameras,
    PerspectiveCameras,
    PointLights,
    PointsRasterizationSettings,
    PointsRasterizer,
    PointsRenderer,
    SoftGouraudShader,
    SoftPhongShader,
    SoftSilhouetteShader,
    SplatterPhongShader,
    VolumeRenderer,
)
from pytorch3d.renderer.fisheyecameras import FishEyeCameras  # noqa: E402
from pytorch3d.renderer.mesh.shader import HardDepthShader, SoftDepthShader  # noqa: E402

PROPERTY = "C19"
FILES = [os.path.join(th.REPO, "pytorch3d") + os.sep]


def prepare(tier):
    try:
        instr.plain(instr.RENDER)
    except RuntimeError as e:
        raise SystemExit(f"cannot build the C++ code: {e}")


SHADERS = dict(
    hard_phong=HardPhongShader,
    soft_phong=SoftPhongShader,
    hard_gouraud=HardGouraudShader,
    soft_gouraud=SoftGouraudShader,
    hard_flat=HardFlatShader,
    silhouette=SoftSilhouetteShader,
    splatter=SplatterPhongShader,
    hard_depth=HardDepthShader,
    soft_depth=SoftDepthShader,
)
LIT = ("hard_phong", "soft_phong", "hard_gouraud", "soft_gouraud", "hard_flat", "splatter")


def settings(spec, how):
    """the objects which hold a spec"""
    return dict(
        cameras=sc.make_cameras(spec["cameras"]),
        lights=sc.make_lights(spec["lights"]),
        materials=sc.make_materials(spec["materials"]),
        blend_params=sc.make_blend(spec["blend"], 0.5 if how == "splatter" else None),
        raster_settings=sc.make_raster(spec["raster"]),
    )


def make_renderer(how, o):
    if how == "silhouette":
        shader = SHADERS[how](blend_params=o["blend_params"])
    else:
        shader = SHADERS[how](cameras=o["cameras"], lights=o["lights"], materials=o["materials"], blend_params=o["blend_params"])
    return MeshRendererWithFragments(MeshRasterizer(cameras=o["cameras"], raster_settings=o["raster_settings"]), shader)


def parts(r):
    img, fr = r
    return [img, fr.pix_to_face, fr.zbuf, fr.bary_coords, fr.dists]


def same(a, b):
    return all(x.shape == y.shape and x.dtype == y.dtype and torch.equal(torch.nan_to_num(x), torch.nan_to_num(y)) for x, y in zip(a, b))


def one_of(spec, i):
    r = dict(spec)
    for k in ("cameras", "lights", "materials"):
        r[k] = sc.rows(spec[k], i)
    return r


def check_model(ctx, how, spec, S, out):
    """against the reference, image by image"""
    img, pix, zbuf, bary, dist = [x.detach().numpy().astype(np.float64) if x.is_floating_point() else x.numpy() for x in out]
    R, B = spec["raster"], dict(spec["blend"])
    n, K = len(S["verts"]), R["faces_per_pixel"]
    h, w = sc.size_of(R)
    ctx.check(pix.shape == (n, h, w, K) and img.shape[:3] == (n, h, w), "wrong-image-size", pix.shape, img.shape, (n, h, w, K))
    first = 0
    for i in range(n):
        C, L, M = (sc.rows(spec[k], i) for k in ("cameras", "lights", "materials"))
        s1 = sc.mesh_row(S, i)
        nf = len(s1["faces"][0])
        p = pix[i]
        ctx.check(bool(((p == -1) | ((p >= first) & (p < first + nf))).all()), "face-of-another-mesh", i)
        loc = np.where(p >= 0, p - first, -1)
        first += nf
        if C["kind"] != sc.FISHEYE:
            cand, doubt = sc.ref_fragments(C, 0, s1["verts"][0], s1["faces"][0], R)
            for y in range(h):
                for x in range(w):
                    if doubt[y, x]:
                        continue
                    c = cand[y][x][:K]
                    got = loc[y, x].tolist()
                    ctx.check(got == [a[1] for a in c] + [-1] * (K - len(c)), "wrong-faces-at-pixel", i, (y, x), got, [a[1] for a in c])
                    for k, a in enumerate(c):
                        ctx.check(abs(zbuf[i, y, x, k] - a[0]) < 2e-3 * a[0], "wrong-depth", i, (y, x, k), zbuf[i, y, x, k], a[0])
                        ctx.check(bool((np.abs(bary[i, y, x, k] - a[2]) < 5e-3).all()), "wrong-barycentric-coordinates", i, (y, x, k))
                        ctx.check(abs(dist[i, y, x, k] - a[3]) < 1e-4 + 1e-2 * abs(a[3]), "wrong-distance", i, (y, x, k), dist[i, y, x, k], a[3])
            ctx.count("pixels", int((~doubt).sum()))
            ctx.count("doubtful pixels", int(doubt.sum()))
        zn, zf = (float(C[k][0]) if k in C else v for k, v in (("znear", 1.0), ("zfar", 100.0)))
        zn, zf = spec.get("znear", zn), spec.get("zfar", zf)
        a = (loc, dist[i], zbuf[i])
        tol = 2e-3
        if how == "silhouette":
            want = sc.silhouette(loc, dist[i], B)
        elif how == "hard_depth":
            want, tol = sc.hard_depth(loc, zbuf[i], zf), 1e-4 * zf
        elif how == "soft_depth":
            want, tol = sc.soft_depth(*a, B, zf), 1e-3 * zf
        elif how == "splatter" or S["tex"] == sc.ATLAS:
            continue
        else:
            model = "gouraud" if "gouraud" in how else "flat" if "flat" in how else "phong"
            col = sc.ref_colors(model, s1, L, M, sc.center(C, 0), loc, bary[i])
            want = sc.hard_blend(col, loc, B) if "hard" in how else sc.soft_blend(col, *a, B, zn, zf)
            tol = 5e-3
        e = np.abs(img[i] - want)
        # (a normal at a right angle to the light, or normals which cancel)
        bad = (e > tol * (1 + np.abs(want))).any(-1)
        ctx.check(int(bad.sum()) <= 1 + (h * w) // 25, "wrong-image", how, i, int(bad.sum()), float(e.max()))
        ctx.count("images")


def draw_spec(d, g, n, how, fisheye):
    m = n if d.chance(2, 3) else 1
    spec = dict(
        cameras=sc.draw_cameras(d, g, 1, [sc.FISHEYE]) if fisheye else sc.draw_cameras(d, g, m),
        lights=sc.draw_lights(d, g, n if d.chance(2, 3) else 1),
        materials=sc.draw_materials(d, g, n if d.chance(1, 3) else 1),
        blend=sc.draw_blend(d, g),
        raster=sc.draw_raster(d, blur=1 if how in ("silhouette", "soft_depth") else None),
    )
    return spec


def unchanged(ctx, o, spec, what):
    """the objects hold what their spec says"""
    C, s = o["cameras"], spec["cameras"]
    eq = lambda a, b: torch.equal(a.detach(), sc.t(b))  # noqa: E731
    ctx.check(eq(C.R, s["R"]) and eq(C.T, s["T"]), "cameras-changed", what)
    for k in ("lights", "materials"):
        for f in spec[k]:
            if f not in ("kind", "one"):
                ctx.check(eq(getattr(o[k], f), spec[k][f]), "lights-or-materials-changed", k, f, what)
    r = o["raster_settings"]
    ctx.check({f: getattr(r, f) for f in spec["raster"]} == spec["raster"], "settings-changed", what)


def meshes_unchanged(ctx, m, S):
    for i, (v, f) in enumerate(zip(m.verts_list(), m.faces_list())):
        ctx.check(np.array_equal(v.detach().numpy(), S["verts"][i]) and np.array_equal(f.numpy(), S["faces"][i]), "scene-changed", i)
    if S["tex"] == sc.VERTEX:
        for i, c in enumerate(m.textures.verts_features_list()):
            ctx.check(np.array_equal(c.numpy(), S["colors"][i]), "texture-changed", i)


DEFAULTS = [
    PerspectiveCameras,
    FoVPerspectiveCameras,
    OrthographicCameras,
    FoVOrthographicCameras,
    FishEyeCameras,
    PointLights,
    DirectionalLights,
    AmbientLights,
    Materials,
]


def defaults(d, ctx, g):
    """an object made without arguments has nothing to do with another; a part of
    a batch of cameras is the cameras of these indices"""
    cls = d.pick(DEFAULTS)
    tensors = lambda o: {k: v for k, v in vars(o).items() if torch.is_tensor(v)}  # noqa: E731
    a = cls()
    before = {k: v.clone() for k, v in tensors(a).items()}
    for k, v in tensors(a).items():
        if v.is_floating_point() and not k.startswith("_"):
            try:
                getattr(a, k).add_(float(g.uniform(0.5, 2)))
            except RuntimeError:  # expanded
                pass
    after = tensors(cls())
    for k in before:
        ctx.check(torch.equal(after[k], before[k]), "default-changed", cls.__name__, k)
    n = d.integer(1, 4)
    C = sc.draw_cameras(d, g, n, range(6))
    cams = sc.make_cameras(C)
    idx = [d.choice(n) for _ in range(d.integer(1, 3))]
    part = cams[idx if d.chance(1, 2) else torch.tensor(idx)]
    pts = sc.t(g.uniform(-0.5, 0.5, (4, 3) if C["kind"] == sc.FISHEYE else (len(idx), 4, 3)))
    want = sc.make_cameras({k: v[idx] if isinstance(v, np.ndarray) else v for k, v in C.items()})
    ctx.check(torch.equal(part.transform_points(pts), want.transform_points(pts)), "wrong-part-of-the-cameras", C["kind"])
    i = idx[0]
    want = sc.make_cameras(sc.rows(C, i))
    ctx.check(torch.allclose(cams[i].transform_points(pts.reshape(-1, 3)), want.transform_points(pts.reshape(-1, 3)), atol=1e-4), "wrong-part-of-the-cameras", C["kind"])
    ctx.count("defaults and parts")


def meshes(d, ctx):
    warnings.simplefilter("ignore")
    g = np.random.RandomState(d.seed32())
    how = d.pick(list(SHADERS))
    n = d.integer(1, 4)
    fisheye = how != "splatter" and d.chance(1, 12)
    gouraud = "gouraud" in how
    spec = draw_spec(d, g, n, how, fisheye)
    o = settings(spec, how)
    R = make_renderer(how, o)
    pool = []
    for _ in range(d.integer(1, 3)):
        S = sc.draw_meshes(d, g, n, sc.VERTEX if gouraud else None)
        pool.append((S, sc.make_meshes(S)))

    def expect(sp, S):
        near = {k: sp[k] for k in ("znear", "zfar") if k in sp}
        return parts(make_renderer(how, settings(sp, how))(sc.make_meshes(S), **near))

    def draw_call():
        """which scene, and what the call overrides -> (spec of the call, S, mesh, arguments)"""
        S, m = d.pick(pool)
        sp, kw = dict(spec), {}
        if d.chance(1, 2):
            for k in ("cameras", "lights", "materials", "blend", "raster"):
                if d.chance(1, 4):
                    new = draw_spec(d, g, n, how, fisheye)[k]
                    sp[k] = new
                    name = dict(blend="blend_params", raster="raster_settings").get(k, k)
                    kw[name] = settings(sp, how)[name]
        if d.chance(1, 6) and how in ("soft_phong", "soft_gouraud", "hard_depth", "soft_depth") and sp["cameras"]["kind"] not in (sc.FOV, sc.FOVORTHO):
            sp["znear"], sp["zfar"] = kw["znear"], kw["zfar"] = 0.5, 20.0
        return sp, S, m, kw

    def judge(out, sp, S, what):
        out = parts(out)
        want = expect(sp, S)
        ctx.check(same(out, want), "image-depends-on-the-history", how, what)
        check_model(ctx, how, sp, S, out)
        ctx.event(how, float(torch.nan_to_num(out[0]).double().sum()))

    for _ in range(d.integer(2, 6)):
        op = d.weighted([6, 2, 2, 3, 2, 2, 2, 1])
        if op == 7:
            defaults(d, ctx, g)
        elif op == 0:
            sp, S, m, kw = draw_call()
            judge(R(m, **kw), sp, S, sorted(kw))
            meshes_unchanged(ctx, m, S)
        elif op == 1:  # failing allocation, or an interruption, and again
            sp, S, m, kw = draw_call()
            if d.chance(1, 2):
                with th.OpFaults() as f:
                    R(m, **kw)
                r = None
                with th.OpFaults(1 + d.choice(max(f.n, 1))) as f:
                    try:
                        r = R(m, **kw)
                    except (th.AllocFail, RuntimeError):
                        if not f.fired:
                            raise
                        ctx.fault("alloc_failure")
                if r is not None:
                    judge(r, sp, S, "alloc")
            else:
                (ok, r), fired = th.interrupted(lambda: R(m, **kw), FILES, 1 + d.gap(10))
                if fired:
                    ctx.fault("interrupt")
                if ok == "ok":
                    judge(r, sp, S, "interrupt")
                elif not fired:
                    raise r
            unchanged(ctx, o, spec, "fault")
            meshes_unchanged(ctx, m, S)
            judge(R(m, **kw), sp, S, "after a fault")
        elif op == 2:  # several at the same time
            calls = [draw_call() for _ in range(d.integer(2, 3))]
            sch = th.Sched(FILES, th.draw_preemptions(d, len(calls), 0, 24, 10))
            res = sch.run([lambda c=c: R(c[2], **c[3]) for c in calls])
            ctx.fault("preemption", sch.di) if sch.di else None
            ctx.state("sched", tuple(sch.trail))
            ctx.sim_time += sch.points * 1e-6
            for (ok, r), (sp, S, m, kw) in zip(res, calls):
                ctx.check(ok == "ok", "concurrent-call-fails", repr(r))
                judge(r, sp, S, "concurrent")
                meshes_unchanged(ctx, m, S)
        elif op == 3:  # change of the long-lived objects
            k = d.weighted([3, 2, 2, 2, 2, 1, 2])
            if k == 0:  # a light, by index
                f = d.pick([x for x in spec["lights"] if x not in ("kind", "one")])
                i = d.choice(len(spec["lights"][f]))
                v = sc.f32(g.uniform(0, 1, 3))
                spec["lights"][f][i] = v
                if d.chance(1, 2):
                    setattr(o["lights"][i], f, sc.t(v)[None] if d.chance(1, 2) else [v.tolist()])
                else:
                    setattr(o["lights"][i : i + 1], f, sc.t(v)[None])
            elif k == 1:  # a property as a whole
                f = d.pick([x for x in spec["materials"] if x != "one"])
                v = spec["materials"][f]
                spec["materials"][f] = sc.f32(g.uniform(0.2, 1, v.shape))
                setattr(o["materials"], f, sc.t(spec["materials"][f]))
            elif k == 2:  # the cameras move
                Rn, Tn = sc.look_at(g, len(spec["cameras"]["R"]))
                spec["cameras"].update(R=Rn, T=Tn)
                if d.chance(1, 2):
                    o["cameras"].R, o["cameras"].T = sc.t(Rn), sc.t(Tn)
                else:  # documented: sets them for later, too
                    c = o["cameras"].get_camera_center(R=sc.t(Rn), T=sc.t(Tn))
                    want = np.stack([sc.center(spec["cameras"], i) for i in range(len(Rn))])
                    ctx.check(bool((np.abs(c.numpy() - want) < 1e-3).all()), "wrong-camera-center")
            elif k == 3:
                spec["raster"] = draw_spec(d, g, n, how, fisheye)["raster"]
                o["raster_settings"] = sc.make_raster(spec["raster"])
                R.rasterizer.raster_settings = o["raster_settings"]
            elif k == 4:
                spec["blend"] = sc.draw_blend(d, g)
                o["blend_params"] = R.shader.blend_params = settings(spec, how)["blend_params"]
            elif k == 5:  # all of them
                spec = draw_spec(d, g, n, how, fisheye)
                o = settings(spec, how)
                R.rasterizer.cameras, R.rasterizer.raster_settings = o["cameras"], o["raster_settings"]
                R.shader.blend_params = o["blend_params"]
                if how != "silhouette":
                    for f in ("cameras", "lights", "materials"):
                        setattr(R.shader, f, o[f])
            else:  # another number of images
                n = d.integer(1, 4)
                spec = draw_spec(d, g, n, how, fisheye)
                o = settings(spec, how)
                sp = R.shader
                R.rasterizer = MeshRasterizer(cameras=o["cameras"], raster_settings=o["raster_settings"])
                sp.blend_params = o["blend_params"]
                if how != "silhouette":
                    sp.cameras, sp.lights, sp.materials = o["cameras"], o["lights"], o["materials"]
                pool = []
                for _ in range(d.integer(1, 2)):
                    S = sc.draw_meshes(d, g, n, sc.VERTEX if gouraud else None)
                    pool.append((S, sc.make_meshes(S)))
            unchanged(ctx, o, spec, ("set", k))
        elif op == 4:  # copies go their own way
            sp, S, m, kw = draw_call()
            k = d.choice(4)
            if k == 0:
                R2, o2 = copy.deepcopy(R), None
                out = R2(m, **kw)
            elif k == 1:
                c = o["cameras"].clone()
                kw.pop("cameras", None)
                sp["cameras"] = spec["cameras"]
                out = R(m, cameras=c, **kw)
                c.T += 1.0
                c.R[:, 0] = 0
            elif k == 2:
                l, a = o["lights"].clone(), o["materials"].clone()
                kw.pop("lights", None), kw.pop("materials", None)
                sp["lights"], sp["materials"] = spec["lights"], spec["materials"]
                out = R(m, lights=l, materials=a, **kw)
                l.ambient_color += 1.0
                l[0].ambient_color = [[9.0] * 3]
                a.ambient_color += 1.0
            else:
                i = [d.choice(len(spec["cameras"]["R"])) for _ in range(n)]
                c = o["cameras"][i]
                kw.pop("cameras", None)
                sp["cameras"] = {q: v[i] if isinstance(v, np.ndarray) else v for q, v in spec["cameras"].items()}
                if fisheye and n > 1:
                    continue
                out = R(m, cameras=c, **kw)
                c.T += 1.0
            judge(out, sp, S, ("copy", k))
            unchanged(ctx, o, spec, ("copy", k))
        elif op == 5:  # alone
            sp, S, m, kw = draw_call()
            out = parts(R(m, **kw))
            i = d.choice(n)
            if not len(S["verts"][i]):
                continue
            alone = expect(one_of(sp, i), sc.mesh_row(S, i))
            h, w = sc.size_of(sp["raster"])
            bad = ((out[0][i] - alone[0][0]).abs() > 2e-3 * (1 + alone[0][0].abs())).any(-1)
            ctx.check(int(bad.sum()) <= 1 + (h * w) // 20, "image-depends-on-its-batch", how, i, int(bad.sum()))
            ctx.count("alone")
        else:  # gradients
            sp, S, m, kw = draw_call()
            if how in ("hard_depth", "splatter") or not sum(len(v) for v in S["verts"]):
                continue
            gr = []
            for q in range(2):
                mm = sc.make_meshes(S, grad=True)
                r = R(mm, **kw) if q == 0 else make_renderer(how, settings(sp, how))(mm, **{k: sp[k] for k in ("znear", "zfar") if k in sp})
                img = torch.nan_to_num(r[0])
                if not img.requires_grad:
                    break
                (img * torch.linspace(-1, 1, img.numel()).reshape(img.shape)).sum().backward()
                gr.append([v.grad for v in mm.verts_list()])
            if len(gr) == 2:
                for a, b in zip(*gr):
                    ctx.check((a is None) == (b is None) and (a is None or torch.equal(torch.nan_to_num(a), torch.nan_to_num(b))), "gradient-depends-on-the-history", how)
                ctx.count("gradients")
        ctx.state(how, n, spec["cameras"]["kind"], spec["lights"]["kind"], op)
    unchanged(ctx, o, spec, "end")
    ctx.nontrivial = True


# ---- points and volumes


class Points:
    name = "points"

    def __init__(self, d, g):
        self.d, self.g = d, g
        self.ch = d.pick([1, 3, 3, 4])
        self.how = d.pick(["alpha", "norm"])
        self.reset()

    def reset(self):
        d, g = self.d, self.g
        self.n = d.integer(1, 4)
        self.spec = self.draw_spec()
        self.o = self.objects(self.spec)
        self.R = self.build(self.o)
        self.pool = []
        for _ in range(d.integer(1, 3)):
            self.add_scene()

    def add_scene(self):
        S = sc.draw_clouds(self.d, self.g, self.n, self.ch)
        self.pool.append((S, sc.make_clouds(S)))

    def draw_spec(self):
        d, g = self.d, self.g
        bg = None
        if d.chance(2, 3):
            bg = g.uniform(0, 1, self.ch - (self.ch > 1 and d.chance(1, 3))).astype(np.float32)
        size = d.integer(4, 9)
        return dict(
            cameras=sc.draw_cameras(d, g, self.n if d.chance(2, 3) else 1),
            raster=dict(
                image_size=size if d.chance(1, 2) else (size, d.integer(4, 9)),
                radius=d.pick([0.1, 0.25, 0.6]),
                points_per_pixel=d.integer(1, 6),
                bin_size=0,
            ),
            bg=bg,
        )

    def objects(self, spec):
        return dict(
            cameras=sc.make_cameras(spec["cameras"]),
            raster_settings=PointsRasterizationSettings(**spec["raster"]),
            background_color=None if spec["bg"] is None else torch.from_numpy(spec["bg"].copy()) if len(spec["bg"]) % 2 else spec["bg"].tolist(),
        )

    def build(self, o):
        comp = (AlphaCompositor if self.how == "alpha" else NormWeightedCompositor)(background_color=o["background_color"])
        return PointsRenderer(PointsRasterizer(cameras=o["cameras"], raster_settings=o["raster_settings"]), comp)

    def run(self, R, m, kw):
        return [R(m, **kw)]

    def overrides(self, sp):
        d = self.d
        new, kw = self.draw_spec(), {}
        for k, name in (("cameras", "cameras"), ("raster", "raster_settings"), ("bg", "background_color")):
            if d.chance(1, 3):
                sp[k] = new[k]
                kw[name] = self.objects(sp)[name]
        return kw

    def call(self):
        d = self.d
        S, m = d.pick(self.pool)
        sp = dict(self.spec)
        return sp, S, m, self.overrides(sp) if d.chance(1, 2) else {}

    def expect(self, sp, S):
        return self.run(self.build(self.objects(sp)), sc.make_clouds(S), {})

    def row(self, sp, S, i):
        if not len(S["pts"][i]):
            return None
        return dict(sp, cameras=sc.rows(sp["cameras"], i)), sc.mesh_row(S, i)

    def model(self, ctx, sp, S, out):
        img = out[0].detach().double().numpy()
        h, w = sc.size_of(sp["raster"])
        ctx.check(img.shape == (len(S["pts"]), h, w, self.ch), "wrong-image-size", img.shape, (h, w))
        for i in range(len(img)):
            want, doubt, _ = sc.ref_points(sc.rows(sp["cameras"], i), S["pts"][i], S["feats"][i], sp["raster"], self.how, sp["bg"])
            bad = (np.abs(img[i] - want) > 5e-3).any(-1) & ~doubt
            ctx.check(not bad.any(), "wrong-image", self.how, i, int(bad.sum()))
            ctx.count("pixels", int((~doubt).sum()))
            ctx.count("doubtful pixels", int(doubt.sum()))
            ctx.count("images")

    def unchanged(self, ctx, what):
        C, s = self.o["cameras"], self.spec["cameras"]
        ctx.check(torch.equal(C.R, sc.t(s["R"])) and torch.equal(C.T, sc.t(s["T"])), "cameras-changed", what)
        r = self.o["raster_settings"]
        ctx.check({f: getattr(r, f) for f in self.spec["raster"]} == self.spec["raster"], "settings-changed", what)
        b = self.o["background_color"]
        ctx.check(b is None or np.array_equal(np.array(b, dtype=np.float32), self.spec["bg"]), "background-changed", what)

    def scene_unchanged(self, ctx, m, S):
        for i, (p, f) in enumerate(zip(m.points_list(), m.features_list())):
            ctx.check(np.array_equal(p.detach().numpy(), S["pts"][i]) and np.array_equal(f.detach().numpy(), S["feats"][i]), "scene-changed", i)

    def change(self):
        d, o, k = self.d, self.o, self.d.choice(4)
        if k == 0:
            Rn, Tn = sc.look_at(self.g, len(self.spec["cameras"]["R"]))
            self.spec["cameras"].update(R=Rn, T=Tn)
            if d.chance(1, 2):
                o["cameras"].R, o["cameras"].T = sc.t(Rn), sc.t(Tn)
            else:
                o["cameras"].get_world_to_view_transform(R=sc.t(Rn), T=sc.t(Tn))
        elif k == 1:  # in place
            new = self.draw_spec()["raster"]
            self.spec["raster"] = new
            for f, v in new.items():
                setattr(o["raster_settings"], f, v)
        elif k == 2:
            self.spec["bg"] = self.draw_spec()["bg"]
            o["background_color"] = self.R.compositor.background_color = self.objects(self.spec)["background_color"]
        else:
            self.reset()

    def leaves(self, S):
        m = sc.make_clouds(S, grad=True)
        return m, m.points_list() + m.features_list()


class Vols:
    name = "volumes"

    def __init__(self, d, g):
        self.d, self.g = d, g
        self.ch = d.pick([1, 3])
        self.nearest = d.chance(1, 4)
        self.reset()

    def reset(self):
        self.n = self.d.integer(1, 3)
        self.spec = self.draw_spec()
        self.o = self.objects(self.spec)
        self.R = self.build(self.o)
        self.pool = []
        for _ in range(self.d.integer(1, 3)):
            S = sc.draw_volumes(self.d, self.g, self.n, self.ch)
            self.pool.append((S, sc.make_volumes(S)))

    def draw_spec(self):
        d, g = self.d, self.g
        lo = float(np.float32(g.uniform(1.0, 2.5)))
        return dict(
            cameras=sc.draw_cameras(d, g, self.n),
            raster=dict(h=d.integer(2, 6), w=d.integer(2, 6), n_pts_per_ray=d.integer(3, 12), min_depth=lo, max_depth=lo + 2.5, thickness=d.weighted([1, 4, 1])),
        )

    def objects(self, spec):
        return dict(cameras=sc.make_cameras(spec["cameras"]))

    def sampler(self, r):
        return NDCMultinomialRaysampler(image_width=r["w"], image_height=r["h"], n_pts_per_ray=r["n_pts_per_ray"], min_depth=r["min_depth"], max_depth=r["max_depth"])

    def marcher(self, r):
        return EmissionAbsorptionRaymarcher(surface_thickness=r["thickness"]) if r["thickness"] else AbsorptionOnlyRaymarcher()

    def build(self, o, spec=None):
        r = (spec or self.spec)["raster"]
        return VolumeRenderer(self.sampler(r), self.marcher(r), sample_mode="nearest" if self.nearest else "bilinear")

    def run(self, R, m, kw):
        kw = dict(kw)
        img, rays = R(kw.pop("cameras", self.o["cameras"]), m, **kw)
        return [img, rays.origins, rays.directions, rays.lengths]

    def call(self):
        d = self.d
        S, m = d.pick(self.pool)
        sp, kw = dict(self.spec, raster=dict(self.spec["raster"])), {}
        if d.chance(1, 2):
            new = self.draw_spec()
            if d.chance(1, 2):
                sp["cameras"] = new["cameras"]
                kw["cameras"] = sc.make_cameras(sp["cameras"])
            if d.chance(1, 2):
                for k in ("min_depth", "max_depth"):
                    kw[k] = sp["raster"][k] = new["raster"][k]
            if d.chance(1, 3):
                kw["n_pts_per_ray"] = sp["raster"]["n_pts_per_ray"] = d.integer(3, 12)
        return sp, S, m, kw

    def expect(self, sp, S):
        return self.run(self.build(None, sp), sc.make_volumes(S), dict(cameras=sc.make_cameras(sp["cameras"])))

    def row(self, sp, S, i):
        return dict(sp, cameras=sc.rows(sp["cameras"], i)), {k: v[i : i + 1] if isinstance(v, (list, np.ndarray)) else v for k, v in S.items()}

    def model(self, ctx, sp, S, out):
        img = out[0].detach().double().numpy()
        r = sp["raster"]
        ctx.check(img.shape == (len(S["dens"]), r["h"], r["w"], self.ch + 1 if r["thickness"] else 1), "wrong-image-size", img.shape, r)
        for i in range(len(img)):
            one, S1 = self.row(sp, S, i)
            want, doubt = sc.ref_volume(one["cameras"], S1, r, self.nearest)
            bad = (np.abs(img[i] - want) > 2e-3).any(-1) & ~doubt
            ctx.check(not bad.any(), "wrong-image", i, int(bad.sum()), float(np.abs(img[i] - want)[~doubt].max()))
            ctx.count("pixels", int((~doubt).sum()))
            ctx.count("doubtful pixels", int(doubt.sum()))
            ctx.count("images")

    def unchanged(self, ctx, what):
        C, s = self.o["cameras"], self.spec["cameras"]
        ctx.check(torch.equal(C.R, sc.t(s["R"])) and torch.equal(C.T, sc.t(s["T"])), "cameras-changed", what)

    def scene_unchanged(self, ctx, m, S):
        for i, (p, f) in enumerate(zip(m.densities_list(), m.features_list())):
            ctx.check(np.array_equal(p.detach().numpy(), S["dens"][i]) and np.array_equal(f.detach().numpy(), S["feats"][i]), "scene-changed", i)

    def change(self):
        d, o, k = self.d, self.o, self.d.choice(3)
        if k == 0:
            Rn, Tn = sc.look_at(self.g, len(self.spec["cameras"]["R"]))
            self.spec["cameras"].update(R=Rn, T=Tn)
            o["cameras"].R, o["cameras"].T = sc.t(Rn), sc.t(Tn)
        elif k == 1:
            self.spec["raster"] = self.draw_spec()["raster"]
            self.R.renderer.raysampler = self.sampler(self.spec["raster"])
            self.R.renderer.raymarcher = self.marcher(self.spec["raster"])
        else:
            self.reset()

    def leaves(self, S):
        return sc.make_volumes(S, grad=True)


def history(d, ctx, make):
    warnings.simplefilter("ignore")
    W = make(d, np.random.RandomState(d.seed32()))

    def judge(out, sp, S, what):
        ctx.check(same(out, W.expect(sp, S)), "image-depends-on-the-history", what)
        W.model(ctx, sp, S, out)
        ctx.event(W.name, float(torch.nan_to_num(out[0]).double().sum()))

    for _ in range(d.integer(3, 9)):
        op = d.weighted([6, 2, 2, 3, 2, 2, 2])
        if op == 0:
            sp, S, m, kw = W.call()
            judge(W.run(W.R, m, kw), sp, S, sorted(kw))
            W.scene_unchanged(ctx, m, S)
        elif op == 1:
            sp, S, m, kw = W.call()
            if d.chance(1, 2):
                with th.OpFaults() as f:
                    W.run(W.R, m, kw)
                r = None
                with th.OpFaults(1 + d.choice(max(f.n, 1))) as f:
                    try:
                        r = W.run(W.R, m, kw)
                    except (th.AllocFail, RuntimeError):
                        if not f.fired:
                            raise
                        ctx.fault("alloc_failure")
                if r is not None:
                    judge(r, sp, S, "alloc")
            else:
                (ok, r), fired = th.interrupted(lambda: W.run(W.R, m, kw), FILES, 1 + d.gap(10))
                if fired:
                    ctx.fault("interrupt")
                if ok == "ok":
                    judge(r, sp, S, "interrupt")
                elif not fired:
                    raise r
            W.unchanged(ctx, "fault")
            W.scene_unchanged(ctx, m, S)
            judge(W.run(W.R, m, kw), sp, S, "after a fault")
        elif op == 2:
            calls = [W.call() for _ in range(d.integer(2, 3))]
            sch = th.Sched(FILES, th.draw_preemptions(d, len(calls), 0, 24, 10))
            res = sch.run([lambda c=c: W.run(W.R, c[2], c[3]) for c in calls])
            ctx.fault("preemption", sch.di) if sch.di else None
            ctx.state("sched", tuple(sch.trail))
            ctx.sim_time += sch.points * 1e-6
            for (ok, r), (sp, S, m, kw) in zip(res, calls):
                ctx.check(ok == "ok", "concurrent-call-fails", repr(r))
                judge(r, sp, S, "concurrent")
                W.scene_unchanged(ctx, m, S)
        elif op == 3:
            W.change()
        elif op == 4:
            sp, S, m, kw = W.call()
            judge(W.run(copy.deepcopy(W.R), m, kw), sp, S, "copy")
        elif op == 5:
            sp, S, m, kw = W.call()
            i = d.choice(W.n)
            one = W.row(sp, S, i)
            if one is None:
                continue
            a, b = W.run(W.R, m, kw)[0][i], W.expect(*one)[0][0]
            bad = ((a - b).abs() > 2e-3).any(-1)
            ctx.check(int(bad.sum()) <= 1 + bad.numel() // 20, "image-depends-on-its-batch", i, int(bad.sum()))
            ctx.count("alone")
        else:
            sp, S, m, kw = W.call()
            gr = []
            for q in range(2):
                mm, leaves = W.leaves(S)
                if q == 0:
                    img = W.run(W.R, mm, kw)[0]
                elif W.name == "volumes":
                    img = W.run(W.build(None, sp), mm, dict(cameras=sc.make_cameras(sp["cameras"])))[0]
                else:
                    img = W.run(W.build(W.objects(sp)), mm, {})[0]
                (img * torch.linspace(-1, 1, img.numel()).reshape(img.shape)).sum().backward()
                gr.append([v.grad for v in leaves])
            for a, b in zip(*gr):
                ctx.check((a is None) == (b is None) and (a is None or torch.equal(torch.nan_to_num(a), torch.nan_to_num(b))), "gradient-depends-on-the-history")
            ctx.count("gradients")
        ctx.state(W.name, W.n, W.spec["cameras"]["kind"], op)
    W.unchanged(ctx, "end")
    ctx.nontrivial = True


META = {
    "rule": "a run is one seed: long-lived renderer, cameras, lights, materials and settings and 1-3 scenes of 1-4 meshes, point clouds or volumes, then 2-9 "
    "operations: a rendering with any settings overridden, one that dies in an allocation or is interrupted and is repeated, 2-3 at once with up to 24 "
    "preemptions, changes of the long-lived objects by index, in place or as a whole, copies that are changed, one image alone, gradients, default objects "
    "changed in place; nontrivial = all",
    "state_measure": "distinct (shader or renderer, batch size, camera kind, light kind, operation) and distinct thread schedules",
    "real": "pytorch3d.renderer: cameras, lights, materials, textures, rasterizers, shaders, blending, compositors, ray sampling and marching, renderers; structures; C++ compiled from the working tree",
    "stub": "operators that fail on request, scheduler for threads; the reference renderer (numpy, double precision, one image at a time)",
    "assumptions": [
        "pixels at edges, ties in depth and thin faces are excluded from the comparison with the reference, and 4 % of the pixels of a shaded image",
        "coarse rasterization (bin_size) is compared elsewhere (C09); images are at most 11 pixels wide",
        "the colours of texture atlases and of the splatter shader, and the fragments of fisheye cameras, are compared between histories, not with the reference",
        "batches of only empty meshes are not rendered; meshes do not reach the near plane",
        "CPU only",
    ],
    "level": "exploration",
}
SCENARIOS = [
    Scenario("points", lambda d, ctx: history(d, ctx, Points), 1200, 40000),
    Scenario("volumes", lambda d, ctx: history(d, ctx, Vols), 1200, 40000),
    Scenario("meshes", meshes, 1600, 60000),
]
