// Stand-in for libOpenCL: devices, contexts and programs are plain records, so
// that the OpenCL bookkeeping of the repository can be exercised without a GPU.
// After fakecl_run() programs are compiled for the host by clang's OpenCL C
// front end, and their kernels run there: device memory is separate from host
// memory, a queue does nothing before it is finished, and an out-of-order queue
// copies results back before it runs kernels unless a barrier forbids it.
#include "fake_opencl.h"
#define CL_TARGET_OPENCL_VERSION 300
#include <CL/cl.h>
#include <atomic>
#include <algorithm>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <regex>
#include <set>
#include <unistd.h>
#include <string>
#include <vector>

namespace {
    std::mutex fm;
    std::vector<std::vector<std::string>> platforms;  // device names per platform
    std::string fail_build_on;
    std::atomic<long> live_programs{0};

    struct Obj {
        std::atomic<int> rc{1};
    };
}

struct _cl_platform_id {
    int index;
};
struct _cl_device_id {
    std::string name;
    cl_platform_id plat;
};
struct _cl_context : Obj {
    cl_device_id dev;
};
struct _cl_program : Obj {
    cl_context ctx;
    std::string src;
    bool built = false, failed = false;
    std::string log;
    void *code = nullptr;
};
struct _cl_kernel : Obj {
    cl_program prog;
    std::string name;
    std::map<cl_uint, std::string> args;
    std::vector<size_t> sizes;  // of the declared arguments, 0: not known
};
struct _cl_mem : Obj {
    static const size_t GUARD = 4096;
    std::vector<uint8_t> mem;
    size_t n = 0;
    uint8_t *host = nullptr;  // CL_MEM_USE_HOST_PTR

    uint8_t *at() { return host ? host : mem.data() + GUARD; }

    bool intact() const {
        if (host) return true;
        for (size_t i = 0; i < GUARD; i++) if (mem[i] != 0xa5 || mem[GUARD + n + i] != 0xa5) return false;
        return true;
    }
};
struct _cl_command_queue : Obj {
    struct Cmd {
        int kind;  // 0 copies to the device, 1 runs, 2 copies back, 3 barrier
        std::function<void()> run;
    };
    bool ooo = false;
    std::vector<Cmd> todo;
};

namespace {
    std::vector<cl_platform_id> plat_ids;
    std::vector<std::vector<cl_device_id>> dev_ids;

    cl_int put(const void *p, size_t n, size_t cap, void *out, size_t *ret) {
        if (ret) *ret = n;
        if (out) {
            if (cap < n) return CL_INVALID_VALUE;
            memcpy(out, p, n);
        }
        return CL_SUCCESS;
    }

    cl_int puts_(const std::string &s, size_t cap, void *out, size_t *ret) {
        return put(s.c_str(), s.size() + 1, cap, out, ret);
    }
}

namespace {
    std::string run_dir;
    size_t multiple = 4;
    std::atomic<uint64_t> order{0};
    std::atomic<bool> damaged{false};
    std::atomic<long> kernels_run{0};
    std::set<cl_mem> mems;
    std::map<std::string, std::pair<void *, std::string>> compiled;

    // {code, log} of a source
    std::pair<void *, std::string> compile(const std::string &src) {
        auto it = compiled.find(src);
        if (it != compiled.end()) return it->second;
        std::string base = run_dir + "/k" + std::to_string(getpid()) + "-" + std::to_string(compiled.size());
        std::ofstream(base + ".cl") << src;
        std::string cmd = "clang -x cl -cl-std=CL2.0 -O1 -shared -fPIC " + base + ".cl -o " + base + ".so > " + base + ".log 2>&1";
        void *h = nullptr;
        if (system(cmd.c_str()) == 0) h = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
        std::ifstream f(base + ".log");
        std::string log((std::istreambuf_iterator<char>(f)), {});
        if (!h && log.empty()) log = dlerror();
        for (auto e: {".cl", ".so", ".log"}) unlink((base + e).c_str());
        return compiled[src] = {h, log};
    }
}

void fakecl_run(const std::string &dir) { run_dir = dir; }

void fakecl_schedule(uint64_t seed, size_t m) {
    order = seed;
    multiple = m;
}

bool fakecl_damaged() { return damaged; }

long fakecl_kernels_run() { return kernels_run; }

void fakecl_set(const std::vector<std::vector<std::string>> &p) {
    std::lock_guard<std::mutex> g(fm);
    platforms = p;
    plat_ids.clear();
    dev_ids.clear();
    for (size_t i = 0; i < p.size(); i++) {
        plat_ids.push_back(new _cl_platform_id{(int) i});   // ids stay valid for ever
        dev_ids.emplace_back();
        for (auto &n: p[i]) dev_ids.back().push_back(new _cl_device_id{n, plat_ids.back()});
    }
}

void fakecl_fail_build_on(const std::string &device) {
    std::lock_guard<std::mutex> g(fm);
    fail_build_on = device;
}

long fakecl_live_programs() { return live_programs; }

extern "C" {
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *out, cl_uint *cnt) {
    std::lock_guard<std::mutex> g(fm);
    if (cnt) *cnt = plat_ids.size();
    for (cl_uint i = 0; out && i < n && i < plat_ids.size(); i++) out[i] = plat_ids[i];
    return CL_SUCCESS;
}

cl_int clGetPlatformInfo(cl_platform_id p, cl_platform_info what, size_t cap, void *out, size_t *ret) {
    if (what == CL_PLATFORM_VERSION) return puts_("OpenCL 3.0 stand-in", cap, out, ret);
    if (what == CL_PLATFORM_NAME) return puts_("platform" + std::to_string(p->index), cap, out, ret);
    return CL_INVALID_VALUE;
}

cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type, cl_uint n, cl_device_id *out, cl_uint *cnt) {
    std::lock_guard<std::mutex> g(fm);
    for (size_t k = 0; k < plat_ids.size(); k++)
        if (plat_ids[k] == p) {
            auto &d = dev_ids[k];
            if (cnt) *cnt = d.size();
            for (cl_uint i = 0; out && i < n && i < d.size(); i++) out[i] = d[i];
            return d.empty() ? CL_DEVICE_NOT_FOUND : CL_SUCCESS;
        }
    return CL_INVALID_PLATFORM;
}

cl_int clGetDeviceInfo(cl_device_id d, cl_device_info what, size_t cap, void *out, size_t *ret) {
    if (what == CL_DEVICE_NAME) return puts_(d->name, cap, out, ret);
    if (what == CL_DEVICE_VERSION) return puts_("OpenCL 3.0 stand-in", cap, out, ret);
    if (what == CL_DEVICE_PLATFORM) return put(&d->plat, sizeof(d->plat), cap, out, ret);
    cl_uint one = 1;
    return put(&one, sizeof(one), cap, out, ret);
}

cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }

cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }

cl_context clCreateContext(const cl_context_properties *, cl_uint n, const cl_device_id *d,
                           void (*)(const char *, const void *, size_t, void *), void *, cl_int *err) {
    auto c = new _cl_context();
    c->dev = n ? d[0] : nullptr;
    if (err) *err = CL_SUCCESS;
    return c;
}

cl_int clRetainContext(cl_context c) {
    c->rc++;
    return CL_SUCCESS;
}

cl_int clReleaseContext(cl_context c) {
    c->rc--;
    return CL_SUCCESS;
}

cl_int clGetContextInfo(cl_context c, cl_context_info what, size_t cap, void *out, size_t *ret) {
    if (what == CL_CONTEXT_DEVICES) return put(&c->dev, sizeof(c->dev), cap, out, ret);
    cl_uint one = 1;
    return put(&one, sizeof(one), cap, out, ret);
}

cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *len, cl_int *err) {
    auto p = new _cl_program();
    p->ctx = c;
    for (cl_uint i = 0; i < n; i++) p->src += len && len[i] ? std::string(s[i], len[i]) : std::string(s[i]);
    live_programs++;
    if (err) *err = CL_SUCCESS;
    return p;
}

cl_int clRetainProgram(cl_program p) {
    p->rc++;
    return CL_SUCCESS;
}

cl_int clReleaseProgram(cl_program p) {
    if (--p->rc == 0) live_programs--;
    return CL_SUCCESS;
}

cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id *, const char *, void (*)(cl_program, void *), void *) {
    std::lock_guard<std::mutex> g(fm);
    p->built = true;
    p->failed = !fail_build_on.empty() && p->ctx->dev->name == fail_build_on;
    if (!run_dir.empty() && !p->failed) {
        std::tie(p->code, p->log) = compile(p->src);
        p->failed = !p->code;
    }
    return p->failed ? CL_BUILD_PROGRAM_FAILURE : CL_SUCCESS;
}

cl_int clGetProgramInfo(cl_program p, cl_program_info what, size_t cap, void *out, size_t *ret) {
    if (what == CL_PROGRAM_DEVICES) return put(&p->ctx->dev, sizeof(p->ctx->dev), cap, out, ret);
    if (what == CL_PROGRAM_SOURCE) return puts_(p->src, cap, out, ret);
    if (what == CL_PROGRAM_CONTEXT) return put(&p->ctx, sizeof(p->ctx), cap, out, ret);
    cl_uint one = 1;
    return put(&one, sizeof(one), cap, out, ret);
}

cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info what, size_t cap, void *out, size_t *ret) {
    if (what == CL_PROGRAM_BUILD_STATUS) {
        cl_build_status s = p->failed ? CL_BUILD_ERROR : p->built ? CL_BUILD_SUCCESS : CL_BUILD_NONE;
        return put(&s, sizeof(s), cap, out, ret);
    }
    return puts_(p->failed && p->log.empty() ? "stand-in: asked to fail" : p->log, cap, out, ret);
}

}

// What a driver knows of the arguments a kernel declares.
static std::vector<size_t> declared(const std::string &src, const std::string &name) {
    std::smatch m;
    std::vector<size_t> out;
    if (!std::regex_search(src, m, std::regex("void\\s+" + name + "\\s*\\(([^)]*)\\)"))) return out;
    std::map<std::string, size_t> known = {{"char", 1}, {"short", 2}, {"int", 4}, {"long", 8}, {"uchar", 1}, {"ushort", 2}, {"uint", 4},
                                           {"ulong", 8}, {"float", 4}, {"double", 8}};
    static const std::regex def("#define\\s+(\\w+)\\s+([a-z ]+)"), word("\\w+");
    std::string args = m[1];
    for (auto it = std::sregex_iterator(src.begin(), src.end(), def); it != std::sregex_iterator(); ++it) {
        std::string body = (*it)[2];
        for (auto w = std::sregex_iterator(body.begin(), body.end(), word); w != std::sregex_iterator(); ++w)
            if (auto k = known.find(w->str()); k != known.end() && !known.contains((*it)[1])) {
                known[(*it)[1]] = k->second;
                break;
            }
    }
    std::string one;
    for (char c: args + ",") {
        if (c != ',') {
            one += c;
            continue;
        }
        size_t n = 0;
        if (one.find('*') != one.npos) n = 8;
        else
            for (auto w = std::sregex_iterator(one.begin(), one.end(), word); !n && w != std::sregex_iterator(); ++w)
                if (auto k = known.find(w->str()); k != known.end()) n = k->second;
        out.push_back(n);
        one.clear();
    }
    return out;
}

extern "C" {
cl_kernel clCreateKernel(cl_program p, const char *name, cl_int *err) {
    if (p->code && !dlsym(p->code, name)) {
        if (err) *err = CL_INVALID_KERNEL_NAME;
        return nullptr;
    }
    auto k = new _cl_kernel();
    k->prog = p;
    clRetainProgram(p);
    k->name = name;
    if (p->code) k->sizes = declared(p->src, name);
    if (err) *err = CL_SUCCESS;
    return k;
}

cl_int clReleaseKernel(cl_kernel) { return CL_SUCCESS; }

cl_int clRetainKernel(cl_kernel) { return CL_SUCCESS; }

cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info what, size_t cap, void *out, size_t *ret) {
    if (what == CL_KERNEL_FUNCTION_NAME) return puts_(k->name, cap, out, ret);
    if (what == CL_KERNEL_PROGRAM) return put(&k->prog, sizeof(k->prog), cap, out, ret);
    if (what == CL_KERNEL_CONTEXT) return put(&k->prog->ctx, sizeof(k->prog->ctx), cap, out, ret);
    return CL_INVALID_VALUE;
}

cl_int clGetKernelWorkGroupInfo(cl_kernel, cl_device_id, cl_kernel_work_group_info what, size_t cap, void *out, size_t *ret) {
    if (what == CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE) return put(&multiple, sizeof(multiple), cap, out, ret);
    size_t most = 1024;
    if (what == CL_KERNEL_WORK_GROUP_SIZE) return put(&most, sizeof(most), cap, out, ret);
    return CL_INVALID_VALUE;
}

cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void *v) {
    if (run_dir.empty()) return CL_INVALID_VALUE;
    if (i >= 12 || n > 8 || !v) return CL_INVALID_ARG_INDEX;
    if (i < k->sizes.size() && k->sizes[i] && k->sizes[i] != n) return CL_INVALID_ARG_SIZE;
    k->args[i] = std::string((const char *) v, n);
    return CL_SUCCESS;
}

cl_mem clCreateBuffer(cl_context, cl_mem_flags fl, size_t n, void *p, cl_int *err) {
    auto fail = [&](cl_int e) {
        if (err) *err = e;
        return nullptr;
    };
    if (run_dir.empty()) return fail(CL_OUT_OF_RESOURCES);
    if (!n) return fail(CL_INVALID_BUFFER_SIZE);
    bool host = fl & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR);
    if (host != (p != nullptr)) return fail(CL_INVALID_HOST_PTR);
    auto m = new _cl_mem();
    m->n = n;
    if (fl & CL_MEM_USE_HOST_PTR) m->host = (uint8_t *) p;
    else {
        m->mem.assign(n + 2 * _cl_mem::GUARD, 0xa5);
        if (p) memcpy(m->at(), p, n);
    }
    std::lock_guard<std::mutex> g(fm);
    mems.insert(m);
    if (err) *err = CL_SUCCESS;
    return m;
}

cl_int clRetainMemObject(cl_mem m) {
    m->rc++;
    return CL_SUCCESS;
}

cl_int clReleaseMemObject(cl_mem m) {
    if (--m->rc == 0) {
        if (!m->intact()) damaged = true;
        std::lock_guard<std::mutex> g(fm);
        mems.erase(m);
        delete m;
    }
    return CL_SUCCESS;
}

static cl_command_queue make_queue(bool ooo, cl_int *err) {
    if (run_dir.empty()) {
        if (err) *err = CL_OUT_OF_RESOURCES;
        return nullptr;
    }
    auto q = new _cl_command_queue();
    q->ooo = ooo;
    if (err) *err = CL_SUCCESS;
    return q;
}

cl_command_queue clCreateCommandQueueWithProperties(cl_context, cl_device_id, const cl_queue_properties *p, cl_int *err) {
    bool ooo = false;
    for (; p && *p; p += 2) if (*p == CL_QUEUE_PROPERTIES) ooo = p[1] & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE;
    return make_queue(ooo, err);
}

cl_command_queue clCreateCommandQueue(cl_context, cl_device_id, cl_command_queue_properties p, cl_int *err) {
    return make_queue(p & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE, err);
}

cl_int clRetainCommandQueue(cl_command_queue q) {
    q->rc++;
    return CL_SUCCESS;
}

// What was not waited for may come at any later time: here, never.
cl_int clReleaseCommandQueue(cl_command_queue q) {
    if (--q->rc == 0) {
        delete q;
    }
    return CL_SUCCESS;
}

cl_int clEnqueueBarrierWithWaitList(cl_command_queue q, cl_uint, const cl_event *, cl_event *) {
    q->todo.push_back({3, []() {}});
    return CL_SUCCESS;
}

cl_int clEnqueueMarkerWithWaitList(cl_command_queue, cl_uint, const cl_event *, cl_event *) { return CL_SUCCESS; }

static thread_local size_t gid, gsize, lsize, goff;

cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t *off, const size_t *global,
                              const size_t *local, cl_uint, const cl_event *, cl_event *) {
    if (dim != 1 || !k->prog->code) return CL_INVALID_WORK_DIMENSION;
    if (!global || !*global) return CL_INVALID_GLOBAL_WORK_SIZE;
    if (local && (!*local || *local > 1024 || *global % *local)) return CL_INVALID_WORK_GROUP_SIZE;
    auto f = (void (*)(...)) dlsym(k->prog->code, k->name.c_str());
    if (!f) return CL_INVALID_KERNEL;
    std::vector<uint64_t> a(12, 0);
    std::vector<cl_mem> used;
    for (auto &[i, v]: k->args) {
        uint64_t x = 0;
        memcpy(&x, v.data(), v.size());
        std::lock_guard<std::mutex> g(fm);
        if (v.size() == 8 && mems.contains((cl_mem) x)) {
            used.push_back((cl_mem) x);
            used.back()->rc++;
            x = (uint64_t) used.back()->at();
        }
        a[i] = x;
    }
    size_t n = *global, ls = local ? *local : 1, o = off ? *off : 0;
    uint64_t seed = order++;
    q->todo.push_back({1, [=]() {
        std::vector<size_t> items(n);
        for (size_t i = 0; i < n; i++) items[i] = i;
        uint64_t x = seed * 0x9e3779b97f4a7c15ull + 1;
        switch (seed % 3) {
            case 0:
                break;
            case 1:
                std::reverse(items.begin(), items.end());
                break;
            default:
                for (size_t i = n; i > 1; i--) {
                    x ^= x << 13, x ^= x >> 7, x ^= x << 17;
                    std::swap(items[i - 1], items[x % i]);
                }
        }
        gsize = n, lsize = ls, goff = o;
        for (auto i: items) {
            gid = i + o;
            ((void (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t,
                       uint64_t)) f)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
        }
        kernels_run++;
        for (auto m: used) clReleaseMemObject(m);
    }});
    return CL_SUCCESS;
}

cl_int clFinish(cl_command_queue q) {
    auto &t = q->todo;
    for (size_t i = 0; i < t.size();) {
        size_t j = i;
        while (j < t.size() && t[j].kind != 3) j++;
        if (q->ooo) std::stable_sort(t.begin() + i, t.begin() + j, [](auto &a, auto &b) { return a.kind > b.kind; });
        for (size_t k = i; k < j; k++) t[k].run();
        i = j + 1;
    }
    t.clear();
    return CL_SUCCESS;
}

cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool wait, size_t off, size_t n, void *p, cl_uint, const cl_event *,
                           cl_event *) {
    if (off + n > m->n || !p) return CL_INVALID_VALUE;
    m->rc++;
    q->todo.push_back({2, [=]() {
        memcpy(p, m->at() + off, n);
        clReleaseMemObject(m);
    }});
    return wait ? clFinish(q) : CL_SUCCESS;
}

cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool wait, size_t off, size_t n, const void *p, cl_uint, const cl_event *,
                            cl_event *) {
    if (off + n > m->n || !p) return CL_INVALID_VALUE;
    m->rc++;
    q->todo.push_back({0, [=]() {
        memcpy(m->at() + off, p, n);
        clReleaseMemObject(m);
    }});
    return wait ? clFinish(q) : CL_SUCCESS;
}

cl_int clFlush(cl_command_queue) { return CL_SUCCESS; }

cl_int clRetainEvent(cl_event) { return CL_SUCCESS; }

cl_int clReleaseEvent(cl_event) { return CL_SUCCESS; }

// the mangled names of OpenCL C
#define WORK_ITEM(name, value) size_t _Z##name(unsigned d) { return value; }
WORK_ITEM(13get_global_idj, d ? 0 : gid)
WORK_ITEM(15get_global_sizej, d ? 1 : gsize)
WORK_ITEM(17get_global_offsetj, d ? 0 : goff)
WORK_ITEM(12get_local_idj, d ? 0 : (gid - goff) % lsize)
WORK_ITEM(14get_local_sizej, d ? 1 : lsize)
WORK_ITEM(12get_group_idj, d ? 0 : (gid - goff) / lsize)
WORK_ITEM(14get_num_groupsj, d ? 1 : gsize / lsize)
}
