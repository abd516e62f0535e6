#include "pv_std.hpp"
// Driver of generated C++ full codecs. Requests: lines "<id> <type> <op> <order> <hex|->".
// Every request is announced with "@<id>" before it runs, so an abort is attributed to it.
static size_t pv_alloc_total, pv_alloc_max;
static const size_t PV_ALLOC_REFUSE = size_t(1) << 30;
struct pv_refused {};

static void* pv_alloc(size_t n)
{
    pv_alloc_total += n;
    if (n > pv_alloc_max) pv_alloc_max = n;
    if (n > PV_ALLOC_REFUSE) throw pv_refused();
    void* p = malloc(n ? n : 1);
    if (!p) throw pv_refused();
    memset(p, 0xa7, n < 4096 ? n : 4096);
    return p;
}
void* operator new(size_t n) { return pv_alloc(n); }
void* operator new[](size_t n) { return pv_alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct pv_rng
{
    uint64_t s;
    explicit pv_rng(uint64_t seed): s(seed * 2654435769u + 88172645463325252ull) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    size_t below(size_t n) { return size_t(next() % n); }
    size_t length() { static const size_t l[] = {0, 0, 1, 1, 2, 3, 5}; return l[below(7)]; }
};

static std::string pv_hex(const void* data, size_t n)
{
    static const char d[] = "0123456789abcdef";
    const unsigned char* p = static_cast<const unsigned char*>(data);
    std::string out;
    out.reserve(2 * n);
    for (size_t i = 0; i < n; ++i) { out += d[p[i] >> 4]; out += d[p[i] & 15]; }
    return out.empty() ? std::string("-") : out;
}

template <class T> struct pv_mutate { static void run(T&, pv_rng&); };

// type-erased message, so that the request handling is compiled once
struct pv_any
{
    virtual ~pv_any() {}
    virtual bool decode(char order, const void* data, size_t n) = 0;
    virtual bool decode_vector(const std::vector<uint8_t>& v) = 0;
    virtual bool decode_default(const void* data, size_t n) = 0;
    virtual std::vector<uint8_t> encode(char order) const = 0;
    virtual size_t encode(char order, void* out) const = 0;
    virtual size_t size() const = 0;
    virtual long long static_size() const = 0;
    virtual std::string text() const = 0;
    virtual void mutate(pv_rng& r) = 0;
    virtual size_t object_size() const = 0;
};

template <class T>
struct pv_holder: pv_any
{
    T x;
    bool decode(char order, const void* data, size_t n)
    {
        return order == 'l' ? x.template decode<prophy::little>(data, n)
             : order == 'b' ? x.template decode<prophy::big>(data, n)
             : x.template decode<prophy::native>(data, n);
    }
    bool decode_vector(const std::vector<uint8_t>& v) { return x.decode(v); }
    bool decode_default(const void* data, size_t n) { return x.decode(data, n); }
    std::vector<uint8_t> encode(char order) const
    {
        return order == 'l' ? x.template encode<prophy::little>()
             : order == 'b' ? x.template encode<prophy::big>()
             : order == 'n' ? x.template encode<prophy::native>()
             : x.encode();
    }
    size_t encode(char order, void* out) const
    {
        return order == 'l' ? x.template encode<prophy::little>(out)
             : order == 'b' ? x.template encode<prophy::big>(out)
             : order == 'n' ? x.template encode<prophy::native>(out)
             : x.encode(out);
    }
    size_t size() const { return x.get_byte_size(); }
    long long static_size() const { return T::encoded_byte_size; }
    std::string text() const { return x.print(); }
    void mutate(pv_rng& r) { pv_mutate<T>::run(x, r); }
    size_t object_size() const { return sizeof(T); }
};

// not value-initialized: what the constructor of T leaves out keeps the pattern of pv_alloc
template <class T> static pv_any* pv_make() { return new pv_holder<T>; }

static void pv_encode(const pv_any& x, char order, bool dump)
{
    size_t sz = x.size();
    std::vector<uint8_t> v = x.encode(order);
    uint8_t* exact = static_cast<uint8_t*>(malloc(sz ? sz : 1));
    memset(exact, 0, sz);
    size_t written = x.encode(order, exact);
    bool same = written == v.size() && sz == v.size() && (sz == 0 || memcmp(exact, v.data(), sz) == 0);
    free(exact);
    printf(" %c=%s %cn=%zu %cw=%zu %cs=%d", order, dump ? pv_hex(v.data(), v.size()).c_str() : "-",
        order, v.size(), order, written, order, int(same));
}

static void pv_report(const pv_any& x, bool dump)
{
    printf(" sz=%zu ebs=%lld", x.size(), x.static_size());
    pv_encode(x, 'l', dump);
    pv_encode(x, 'b', dump);
    pv_encode(x, 'n', dump);
    pv_encode(x, 'd', dump);
}

static void pv_handle(pv_any* (*make)(), char op, char order, const std::vector<uint8_t>& in)
{
    // an exact-size heap block: one byte past it is poisoned
    size_t n = in.size();
    uint8_t* data = static_cast<uint8_t*>(malloc(n ? n : 1));
    if (n) memcpy(data, in.data(), n);
    pv_any* x = make();
    if (op == 'R' || op == 'P')
    {
        bool ok = x->decode(order, data, n);
        printf(" ok=%d", int(ok));
        if (ok)
        {
            if (op == 'R') pv_report(*x, true);
            else
            {
                std::string text = x->text();
                printf(" t=%s", pv_hex(text.data(), text.size()).c_str());
                // rendering must not depend on having been rendered before
                printf(" same=%d", int(text == x->text()));
            }
        }
    }
    else if (op == 'V')     // decode(vector) and default-order overloads
    {
        pv_any* y = make();
        bool ok = x->decode_vector(in) && y->decode_default(data, n);
        printf(" ok=%d", int(ok));
        if (ok)
        {
            std::vector<uint8_t> o = x->encode('d'), p = y->encode('d');
            printf(" x=%s y=%s", pv_hex(o.data(), o.size()).c_str(), pv_hex(p.data(), p.size()).c_str());
        }
        delete y;
    }
    else if (op == 'F' || op == 'D')      // arbitrary bytes; D: into a message already holding something
    {
        if (op == 'D') { pv_rng r(n + 7); x->mutate(r); }
        pv_alloc_total = pv_alloc_max = 0;
        bool ok = false;
        const char* ex = "-";
        try { ok = x->decode(order, data, n); }
        catch (const pv_refused&) { ex = "alloc"; }
        catch (const std::exception&) { ex = "exception"; }
        size_t total = pv_alloc_total;
        printf(" ok=%d ex=%s alloc=%zu obj=%zu", int(ok), ex, total, x->object_size());
        if (ok)
        {
            size_t sz = x->size();
            std::vector<uint8_t> v = x->encode(order);
            pv_any* y = make();
            bool again = y->decode(order, v.data(), v.size());
            printf(" sz=%zu vn=%zu again=%d", sz, v.size(), int(again));
            delete y;
        }
    }
    else if (op == 'M')     // random in-memory value, also over-full vectors
    {
        pv_rng r(n ? in[0] + 256u * (n > 1 ? in[1] : 0) : 1);
        if (n) x->mutate(r);
        pv_report(*x, true);
    }
    delete x;
    free(data);
}

struct pv_entry { const char* name; pv_any* (*make)(); };

static int pv_main(const pv_entry* table, int argc, char** argv)
{
    if (argc < 2) return 3;
    FILE* f = fopen(argv[1], "r");
    if (!f) return 3;
    std::vector<char> line(1 << 22);
    while (fgets(line.data(), int(line.size()), f))
    {
        int id, type, pos = 0;
        char op, order;
        if (sscanf(line.data(), "%d %d %c %c %n", &id, &type, &op, &order, &pos) < 4) return 3;
        std::vector<uint8_t> in;
        for (const char* p = line.data() + pos; p[0] > ' ' && p[0] != '-' && p[1] > ' '; p += 2)
        {
            unsigned v; sscanf(p, "%2x", &v); in.push_back(uint8_t(v));
        }
        printf("@%d\n", id);
        fflush(stdout);
        printf("=%d", id);
        pv_handle(table[type].make, op, order, in);
        printf(" end\n");
        fflush(stdout);
    }
    printf("done\n");
    fflush(stdout);
    return 0;
}
