"""A simulated GPU driver: EGL, OpenGL and CUDA as pytorch3d.renderer.opengl uses
them, with per-thread state, call-order checks, a small software rasteriser and
calls that fail on request.  Replaces the modules OpenGL.* and pycuda.*."""

import _thread
import ctypes
import sys
import types
import zlib

import numpy as np

from . import threads as th


class EGLError(Exception):
    pass


class GLError(Exception):
    pass


class LogicError(Exception):
    pass


class Misuse(Exception):
    """The code under test broke a rule of the driver."""


def const(name):
    return 0x10000 + zlib.crc32(name.encode()) % 0x7FFF0000


NULL = 0
FAULTABLE = {}


class GlContext:
    n = 0

    def __init__(self, drv, device):
        self.drv, self.device = drv, device
        GlContext.n += 1
        self.address = GlContext.n
        self.alive = True
        self.objs = {}  # id -> (kind, dict)
        self.next = 1
        self.program = self.vao = self.fbo = self.rb = 0
        self.ssbo = {}
        self.viewport = None
        self.clear = (0.0, 0.0, 0.0, 0.0)
        self.clear_depth = 1.0
        self.enabled = set()
        self.linked = 0

    def new(self, kind, **kw):
        i = self.next
        self.next += 1
        kw["kind"] = kind
        self.objs[i] = kw
        return i

    def get(self, i, kind):
        o = self.objs.get(int(i))
        if o is None or o["kind"] != kind:
            raise GLError(f"GL_INVALID_OPERATION: {i} is no {kind} of this context")
        return o


class Surface:
    def __init__(self, device, w, h):
        self.device, self.w, self.h, self.alive = device, w, h, True


class CudaContext:
    def __init__(self, drv, device):
        self.drv, self.device, self.alive = drv, device, True

    def push(self):
        d = self.drv
        d.call("cuCtxPush")
        if not self.alive:
            raise LogicError("context is destroyed")
        d.stack().append(self)

    def pop(self=None):
        d = Driver.cur
        d.call("cuCtxPop")
        if not d.stack():
            raise LogicError("context::pop failed: invalid device context - no currently active context?")
        d.stack().pop()

    def detach(self):
        self.drv.call("cuCtxDetach")
        if not self.alive:
            raise LogicError("cannot detach from invalid context")
        self.alive = False
        for s in self.drv.stacks.values():
            s[:] = [c for c in s if c is not self]

    def synchronize(self):
        self.drv.call("cuCtxSynchronize")


class Driver:
    cur = None

    def __init__(self, ndev):
        self.ndev = ndev
        self.current = {}  # thread -> GlContext
        self.stacks = {}  # thread -> [CudaContext]
        self.displays = {i: False for i in range(ndev)}  # initialised?
        self.egl, self.cuda, self.surfaces = [], [], []
        self.calls = 0
        self.count = {}  # thread -> faultable calls
        self.plan = {}  # (thread, k) -> kind
        self.fired = []
        self.misuse = []
        self.log = None
        self.release_faults = False

    # -- seams
    def who(self):
        s, i = th.me()
        return ("t", i) if i is not None else ("main", 0)

    def call(self, name, faultable=None):
        """A driver call: a point of the schedule, perhaps one that fails."""
        self.calls += 1
        s, i = th.me()
        if s is not None and i is not None and sys.exc_info()[0] is None:
            s.point(i)
        if self.log is not None:
            self.log.append((self.who(), name))
        if faultable:
            w = self.who()
            k = self.count[w] = self.count.get(w, 0) + 1
            if (w, k) in self.plan:
                self.fired.append((name, w, k))
                return True
        return False

    def bad(self, msg):
        self.misuse.append(msg)
        raise Misuse(msg)

    def stack(self):
        return self.stacks.setdefault(self.who(), [])

    def gl(self, name, faultable=None):
        f = self.call(name, faultable)
        c = self.current.get(self.who())
        if c is None:
            self.bad(f"{name} without a current OpenGL context")
        return c, f

    def cuda_current(self, name):
        s = self.stack()
        if not s:
            self.bad(f"{name} without a current CUDA context")
        return s[-1]


def D():
    return Driver.cur


# ------------------------------------------------------------------ EGL
class EGLDeviceEXT(ctypes.c_void_p):
    pass


def _egl_module():
    m = types.ModuleType("OpenGL.EGL")
    m.EGLint = ctypes.c_int
    m.EGLBoolean = ctypes.c_uint
    m.EGLDisplay = ctypes.c_void_p
    m.EGLConfig = ctypes.c_void_p
    m.EGLAttrib = ctypes.POINTER(ctypes.c_int)
    m.EGLDeviceEXT = EGLDeviceEXT
    m.EGL_NO_SURFACE = m.EGL_NO_CONTEXT = m.EGL_NO_DISPLAY = NULL
    m.EGL_NONE = 0x3038

    def query_devices(n, devices, pnum):
        if D().call("eglQueryDevicesEXT", "egl"):
            return 0
        pnum.contents.value = D().ndev
        if devices is not None:
            for i in range(n):
                devices[i] = EGLDeviceEXT(0x100 + i)
        return 1

    def device_of(dev):
        return (dev.value if hasattr(dev, "value") else dev) - 0x100

    def query_attrib(dev, attr, out):
        D().call("eglQueryDeviceAttribEXT")
        # EGL numbers the devices in the opposite order
        out.contents.value = D().ndev - 1 - device_of(dev)
        return 1

    def get_display(platform, dev, attrs):
        D().call("eglGetPlatformDisplayEXT")
        return 1 + D().ndev - 1 - device_of(dev)  # 1 + CUDA number

    def initialize(dpy, a, b):
        if D().call("eglInitialize", "egl"):
            raise EGLError("EGL_NOT_INITIALIZED")
        D().displays[dpy - 1] = True
        return 1

    def need(dpy):
        if not D().displays[dpy - 1]:
            raise EGLError("EGL_NOT_INITIALIZED")

    def choose(dpy, attrs, pcfg, n, pnum):
        f = D().call("eglChooseConfig", "egl")
        need(dpy)
        pcfg.contents.value = 77
        pnum.contents.value = 0 if f else 1
        return 1

    def surface(dpy, cfg, attrs):
        if D().call("eglCreatePbufferSurface", "egl"):
            return NULL
        need(dpy)
        s = Surface(dpy - 1, attrs[1], attrs[3])
        D().surfaces.append(s)
        return s

    def bind_api(api):
        return 0 if D().call("eglBindAPI", "egl") else 1

    def create(dpy, cfg, share, attrs):
        if D().call("eglCreateContext", "egl"):
            return NULL
        need(dpy)
        c = GlContext(D(), dpy - 1)
        D().egl.append(c)
        return c

    def make_current(dpy, draw, read, ctx):
        d = D()
        if ctx is NULL or ctx == NULL:
            d.call("eglMakeCurrent(none)")
            d.current.pop(d.who(), None)
            need(dpy)
            return 1
        if d.call("eglMakeCurrent", "egl"):
            raise EGLError("EGL_BAD_ALLOC")
        need(dpy)
        if not ctx.alive:
            raise EGLError("EGL_BAD_CONTEXT")
        if not draw.alive:
            raise EGLError("EGL_BAD_SURFACE")
        for w, c in d.current.items():
            if c is ctx and w != d.who():
                d.misuse.append("an EGL context is made current while current in another thread")
                raise EGLError("EGL_BAD_ACCESS")
        d.current[d.who()] = ctx
        return 1

    def destroy_surface(dpy, s):
        if D().call("eglDestroySurface", D().release_faults):
            raise EGLError("EGL_BAD_DISPLAY")
        need(dpy)
        if not s.alive:
            raise EGLError("EGL_BAD_SURFACE")
        s.alive = False
        return 1

    def destroy_context(dpy, c):
        if D().call("eglDestroyContext", D().release_faults):
            raise EGLError("EGL_BAD_DISPLAY")
        need(dpy)
        if not c.alive:
            raise EGLError("EGL_BAD_CONTEXT")
        c.alive = False
        return 1

    def terminate(dpy):
        if D().call("eglTerminate", D().release_faults):
            raise EGLError("EGL_BAD_DISPLAY")
        D().displays[dpy - 1] = False
        for c in D().egl:
            if c.device == dpy - 1:
                c.alive = False
        for s in D().surfaces:
            if s.device == dpy - 1:
                s.alive = False
        return 1

    def release_thread():
        D().call("eglReleaseThread")
        D().current.pop(D().who(), None)
        return 1

    def get_current():
        return D().current.get(D().who(), NULL)

    m.eglQueryDevicesEXT = query_devices
    m.eglQueryDeviceAttribEXT = query_attrib
    m.eglQueryDisplayAttribEXT = m.eglQueryDeviceStringEXT = lambda *a: 1
    m.eglGetPlatformDisplayEXT = get_display
    m.eglInitialize = initialize
    m.eglChooseConfig = choose
    m.eglCreatePbufferSurface = surface
    m.eglBindAPI = bind_api
    m.eglCreateContext = create
    m.eglMakeCurrent = make_current
    m.eglDestroySurface = destroy_surface
    m.eglDestroyContext = destroy_context
    m.eglTerminate = terminate
    m.eglReleaseThread = release_thread
    m.eglGetCurrentContext = get_current
    m.eglGetProcAddress = lambda name: None
    m.eglGetError = lambda: 0x3000
    m.__getattr__ = lambda name: const(name) if name.startswith("EGL_") else _missing(name)
    return m


def _missing(name):
    raise AttributeError(name)


# ------------------------------------------------------------------ OpenGL
def _gl_module():
    m = types.ModuleType("OpenGL.GL")
    m.GL_FALSE, m.GL_TRUE = 0, 1

    def fn(f):
        setattr(m, f.__name__, f)
        return f

    @fn
    def glCreateProgram():
        return D().gl("glCreateProgram")[0].new("program", shaders=[], linked=False, ok=True, uniforms={})

    @fn
    def glCreateShader(t):
        return D().gl("glCreateShader")[0].new("shader", ok=True)

    @fn
    def glShaderSource(s, text):
        c, _ = D().gl("glShaderSource")
        c.get(s, "shader")["text"] = text

    @fn
    def glCompileShader(s):
        c, f = D().gl("glCompileShader", "gl")
        c.get(s, "shader")["ok"] = not f

    @fn
    def glGetShaderiv(s, what):
        c, _ = D().gl("glGetShaderiv")
        return int(c.get(s, "shader")["ok"])

    @fn
    def glGetShaderInfoLog(s):
        c, _ = D().gl("glGetShaderInfoLog")
        c.get(s, "shader")
        return b"simulated failure"

    @fn
    def glDeleteShader(s):
        # deleted for good once it is detached
        c, _ = D().gl("glDeleteShader")
        c.get(s, "shader")

    @fn
    def glAttachShader(p, s):
        c, _ = D().gl("glAttachShader")
        c.get(p, "program")["shaders"].append(c.get(s, "shader"))

    @fn
    def glLinkProgram(p):
        c, f = D().gl("glLinkProgram", "gl")
        p = c.get(p, "program")
        p["ok"] = not f and len(p["shaders"]) == 3 and all(s["ok"] for s in p["shaders"])
        p["linked"] = p["ok"]
        c.linked += p["ok"]

    @fn
    def glGetProgramiv(p, what):
        c, _ = D().gl("glGetProgramiv")
        return int(c.get(p, "program")["ok"])

    @fn
    def glGetProgramInfoLog(p):
        D().gl("glGetProgramInfoLog")
        return b"simulated failure"

    @fn
    def glDeleteProgram(p):
        c, _ = D().gl("glDeleteProgram")
        c.get(p, "program")
        del c.objs[int(p)]

    @fn
    def glUseProgram(p):
        c, f = D().gl("glUseProgram", "gl" if p else None)
        if f:
            raise GLError("GL_OUT_OF_MEMORY")
        if p and not c.get(p, "program")["linked"]:
            raise GLError("GL_INVALID_OPERATION: program is not linked")
        c.program = int(p)

    @fn
    def glEnable(x):
        D().gl("glEnable")[0].enabled.add(x)

    @fn
    def glDisable(x):
        D().gl("glDisable")[0].enabled.discard(x)

    @fn
    def glGetUniformLocation(p, name):
        c, _ = D().gl("glGetUniformLocation")
        c.get(p, "program")
        name = name.decode() if isinstance(name, bytes) else name
        return int(p) * 16 + 3 if name == "perspective_projection" else -1

    @fn
    def glUniformMatrix4fv(loc, n, transpose, value):
        c, f = D().gl("glUniformMatrix4fv", "gl")
        if f:
            raise GLError("GL_OUT_OF_MEMORY")
        if not c.program:
            raise GLError("GL_INVALID_OPERATION: no program in use")
        if loc != c.program * 16 + 3:
            raise GLError("GL_INVALID_OPERATION: location of another program")
        v = np.asarray(value, np.float32).reshape(4, 4).copy()
        c.objs[c.program]["uniforms"]["P"] = v.T.copy() if transpose else v

    def gen(kind):
        def g(n=1):
            c, f = D().gl("glGen " + kind, "gl")
            if f:
                raise GLError("GL_OUT_OF_MEMORY")
            ids = [c.new(kind) for _ in range(n)]
            return ids[0] if n == 1 else np.array(ids)

        return g

    m.glGenBuffers = gen("buffer")
    m.glGenVertexArrays = gen("vao")
    m.glGenRenderbuffers = gen("renderbuffer")
    m.glGenFramebuffers = gen("framebuffer")

    def delete(kind):
        def g(n, ids):
            c, _ = D().gl("glDelete " + kind)
            for i in ids:
                c.get(i, kind)
                del c.objs[int(i)]

        return g

    m.glDeleteBuffers = delete("buffer")
    m.glDeleteFramebuffers = delete("framebuffer")
    m.glDeleteVertexArrays = delete("vao")
    m.glDeleteRenderbuffers = delete("renderbuffer")

    @fn
    def glBindBufferBase(target, index, i):
        c, _ = D().gl("glBindBufferBase")
        if i:
            c.get(i, "buffer")
        c.ssbo[index] = int(i)
        c.bound = int(i)

    @fn
    def glBindBuffer(target, i):
        c, _ = D().gl("glBindBuffer")
        if i:
            c.get(i, "buffer")
        c.bound = int(i)

    @fn
    def glBufferData(target, size, data, usage):
        c, f = D().gl("glBufferData", "gl")
        if f:
            raise GLError("GL_OUT_OF_MEMORY")
        b = np.zeros(size, np.uint8)
        if data is not None:
            b[:] = np.frombuffer(np.ascontiguousarray(data), np.uint8)[:size]
        o = c.get(c.bound, "buffer")
        if o.get("mapped"):
            D().bad("glBufferData on a buffer mapped by CUDA")
        o["data"] = b

    @fn
    def glBindVertexArray(i):
        c, _ = D().gl("glBindVertexArray")
        if i:
            c.get(i, "vao")
        c.vao = int(i)

    @fn
    def glBindRenderbuffer(t, i):
        c, _ = D().gl("glBindRenderbuffer")
        if i:
            c.get(i, "renderbuffer")
        c.rb = int(i)

    @fn
    def glRenderbufferStorage(t, fmt, w, h):
        c, f = D().gl("glRenderbufferStorage", "gl")
        if f:
            raise GLError("GL_OUT_OF_MEMORY")
        c.get(c.rb, "renderbuffer").update(w=w, h=h, fmt=fmt)

    @fn
    def glBindFramebuffer(t, i):
        c, _ = D().gl("glBindFramebuffer")
        if i:
            c.get(i, "framebuffer")
        c.fbo = int(i)

    @fn
    def glFramebufferRenderbuffer(t, att, rt, i):
        c, _ = D().gl("glFramebufferRenderbuffer")
        r = c.get(i, "renderbuffer")
        o = c.get(c.fbo, "framebuffer")
        if att == m.GL_COLOR_ATTACHMENT0:
            o["color"] = np.full((r["h"], r["w"], 4), 12345.0, np.float32)
        else:
            o["depth"] = np.full((r["h"], r["w"]), -12345.0, np.float32)

    @fn
    def glViewport(x, y, w, h):
        D().gl("glViewport")[0].viewport = (w, h)

    @fn
    def glClearColor(*rgba):
        D().gl("glClearColor")[0].clear = rgba

    @fn
    def glClearDepth(z):
        D().gl("glClearDepth")[0].clear_depth = z

    @fn
    def glClear(mask):
        c, _ = D().gl("glClear")
        o = c.get(c.fbo, "framebuffer")
        if mask & m.GL_COLOR_BUFFER_BIT:
            o["color"][:] = np.asarray(c.clear, np.float32)
        if mask & m.GL_DEPTH_BUFFER_BIT:
            o["depth"][:] = c.clear_depth

    m.GL_COLOR_BUFFER_BIT, m.GL_DEPTH_BUFFER_BIT = 0x4000, 0x100

    @fn
    def glDrawArrays(mode, first, n):
        c, f = D().gl("glDrawArrays", "gl")
        if f:
            raise GLError("GL_OUT_OF_MEMORY")
        if not c.program or not c.vao:
            raise GLError("GL_INVALID_OPERATION: no program or vertex array")
        b = c.get(c.ssbo.get(0, 0), "buffer")
        if b.get("mapped"):
            D().bad("glDrawArrays reads a buffer mapped by CUDA")
        draw(c, b["data"], c.objs[c.program]["uniforms"].get("P"), first, n)

    def draw(c, data, P, first, n):
        if P is None:
            P = np.zeros((4, 4), np.float32)
        o = c.get(c.fbo, "framebuffer")
        w, h = c.viewport
        v = data.view(np.float32)[: 9 * (first + n)].reshape(-1, 3, 3)[first:].astype(np.float64)
        px = ((np.arange(w) + 0.5) / w * 2 - 1)[None, :]
        py = ((np.arange(h) + 0.5) / h * 2 - 1)[:, None]
        color, depth = o["color"][:h, :w], o["depth"][:h, :w]
        # GL reads the 16 numbers column by column: clip = v P for a row vector v
        for f in range(n):
            clip = np.concatenate([v[f], np.ones((3, 1))], 1) @ P.astype(np.float64)
            ww = clip[:, 3]
            if (ww <= 1e-9).any():
                continue
            ndc = clip[:, :3] / ww[:, None]
            (x0, y0), (x1, y1), (x2, y2) = ndc[:, :2]
            area = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
            if abs(area) < 1e-12:
                continue
            b0 = ((x1 - px) * (y2 - py) - (x2 - px) * (y1 - py)) / area
            b1 = ((x2 - px) * (y0 - py) - (x0 - px) * (y2 - py)) / area
            b2 = 1 - b0 - b1
            inside = (b0 > 0) & (b1 > 0) & (b2 > 0)
            z = b0 * ndc[0, 2] + b1 * ndc[1, 2] + b2 * ndc[2, 2]
            inside &= (z >= -1) & (z <= 1)
            zw = (z + 1) / 2
            if m.GL_DEPTH_TEST in c.enabled:
                inside &= zw < depth
            q = b0 / ww[0] + b1 / ww[1] + b2 / ww[2]
            q = np.where(inside, q, 1.0)
            c0, c1, c2 = b0 / ww[0] / q, b1 / ww[1] / q, b2 / ww[2] / q
            dz = c0 * v[f, 0, 2] + c1 * v[f, 1, 2] + c2 * v[f, 2, 2]
            out = np.stack([c0, c1, dz, np.full_like(dz, f)], -1)
            color[inside] = out[inside]
            depth[inside] = zw[inside]

    @fn
    def glReadPixels(x, y, w, h, fmt, typ):
        c, f = D().gl("glReadPixels", "gl")
        if f:
            raise GLError("GL_OUT_OF_MEMORY")
        o = c.get(c.fbo, "framebuffer")
        return bytearray(np.ascontiguousarray(o["color"][y : y + h, x : x + w]).tobytes())

    def other(name):
        if name.startswith("GL_"):
            return const(name)
        if name.startswith("gl"):
            return lambda *a: D().gl(name) and 0
        raise AttributeError(name)

    m.__getattr__ = other
    return m


# ------------------------------------------------------------------ CUDA
class Mapping:
    def __init__(self, obj):
        self.obj = obj

    def device_ptr_and_size(self):
        D().call("cuGraphicsResourceGetMappedPointer")
        D().cuda_current("device_ptr_and_size")
        return self.obj["data"].ctypes.data, self.obj["data"].size

    def unmap(self):
        D().call("cuGraphicsUnmapResources")
        D().cuda_current("unmap")
        self.obj["mapped"] = None


class RegisteredBuffer:
    def __init__(self, i, flags=None):
        d = D()
        c, f = d.gl("RegisteredBuffer", "cuda")
        k = d.cuda_current("RegisteredBuffer")
        if f:
            raise LogicError("cuGraphicsGLRegisterBuffer failed: out of memory")
        if k.device != c.device:
            d.bad("CUDA context and OpenGL context of different devices")
        self.obj, self.cuda, self.alive = c.get(i, "buffer"), k, True

    def map(self):
        d = D()
        f = d.call("cuGraphicsMapResources", "cuda")
        k = d.cuda_current("map")
        if f:
            raise LogicError("cuGraphicsMapResources failed: unknown error")
        if k is not self.cuda:
            d.bad("CUDA buffer mapped in the context of another device")
        if self.obj.get("mapped"):
            raise LogicError("cuGraphicsMapResources failed: resource already mapped")
        self.obj["mapped"] = True
        return Mapping(self.obj)

    def unregister(self):
        D().call("cuGraphicsUnregisterResource")
        self.alive = False


class Memcpy2D:
    def __init__(self):
        self.width_in_bytes = self.height = self.src_pitch = 0
        self.dst_pitch = 0

    def set_src_device(self, p):
        self.src = p

    def set_dst_device(self, p):
        self.dst = p

    def __call__(self, *a, **k):
        d = D()
        f = d.call("cuMemcpy2D", "cuda")
        d.cuda_current("Memcpy2D")
        if f:
            raise LogicError("cuMemcpy2D failed: unspecified launch failure")
        n = self.width_in_bytes * self.height
        room = None
        for c in d.egl:
            for o in c.objs.values():
                if o["kind"] == "buffer" and o.get("data") is not None and o["data"].ctypes.data == self.dst:
                    room = o
        if room is None or not room.get("mapped"):
            d.bad("Memcpy2D to memory that is not mapped")
        if n > room["data"].size:
            raise LogicError("cuMemcpy2D failed: invalid argument")
        if n:
            ctypes.memmove(self.dst, self.src, n)


class CudaDevice:
    def __init__(self, i):
        self.i = i

    def make_context(self, flags=0):
        d = D()
        if d.call("cuCtxCreate", "cuda"):
            raise LogicError("cuCtxCreate failed: out of memory")
        if not isinstance(self.i, int) or not 0 <= self.i < d.ndev:
            raise LogicError("cuDeviceGet failed: invalid device ordinal")
        c = CudaContext(d, self.i)
        d.cuda.append(c)
        d.stack().append(c)
        return c


def install():
    if "pycuda" in sys.modules and getattr(sys.modules["pycuda"], "simulated", False):
        return
    mods = {}

    def mod(name, m=None):
        m = m or types.ModuleType(name)
        mods[name] = m
        return m

    og = mod("OpenGL")
    og.__path__ = []
    og.EGL = mod("OpenGL.EGL", _egl_module())
    og.GL = mod("OpenGL.GL", _gl_module())
    og._opaque = mod("OpenGL._opaque")
    og._opaque.opaque_pointer_cls = lambda name: EGLDeviceEXT
    og.raw = mod("OpenGL.raw")
    og.raw.__path__ = []
    og.raw.EGL = mod("OpenGL.raw.EGL")
    og.raw.EGL.__path__ = []
    og.raw.EGL._errors = mod("OpenGL.raw.EGL._errors")
    og.raw.EGL._errors.EGLError = EGLError
    og.EGL.EGLError = EGLError
    og.error = mod("OpenGL.error")
    og.error.GLError = GLError
    pc = mod("pycuda")
    pc.__path__ = []
    pc.simulated = True
    pc.driver = mod("pycuda.driver")
    pc._driver = mod("pycuda._driver")
    for x in (pc.driver, pc._driver):
        x.init = lambda *a: None
        x.Device = CudaDevice
        x.Context = CudaContext
        x.Memcpy2D = Memcpy2D
        x.LogicError = x.Error = LogicError
    pc.gl = mod("pycuda.gl")
    pc.gl.RegisteredBuffer = RegisteredBuffer
    pc.gl.graphics_map_flags = types.SimpleNamespace(WRITE_DISCARD=2, NONE=0, READ_ONLY=1)
    sys.modules.update(mods)
