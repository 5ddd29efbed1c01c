// P22: the type-erased allocator forwards faithfully (recording allocators + equality oracle + leak ledger).
#include "track.hpp"
#include "sparrow/buffer/allocator.hpp"
#include <memory>
VT_MAIN_DEFS
namespace sp = sparrow;

// stateful by value: an id that takes part in equality, all calls recorded in a shared log
template <class T, int Kind> struct Rec
{
    using value_type = T;
    tk::Arena* a;
    int id;
    Rec(tk::Arena& a, int id) : a(&a), id(id) {}
    T* allocate(size_t n) { last_n = n; return static_cast<T*>(a->allocate(n * sizeof(T))); }
    void deallocate(T* p, size_t n) { last_n = n; a->deallocate(p, n * sizeof(T)); }
    bool operator==(const Rec& o) const { return a == o.a && id == o.id; }
    static inline size_t last_n = 0;
};

struct Ident { int kind; int arena; int id; bool operator==(const Ident&) const = default; };

template <class T> void scenario(vt::Case& cs)
{
    vt::Rng& r = cs.rng;
    tk::Arena ar[3];
    tk::Resource res[3] = {tk::Resource(ar[0]), tk::Resource(ar[1]), tk::Resource(ar[2])};
    std::string hist;
    {
        std::vector<std::unique_ptr<sp::any_allocator<T>>> as;
        std::vector<Ident> ids;
        struct Mem { T* p; size_t n; Ident who; };
        std::vector<Mem> mem;
        auto put = [&](sp::any_allocator<T>* a, Ident i) { as.emplace_back(a); ids.push_back(i); };
        auto give = [&](auto alloc, Ident i)
        {
            // from an rvalue, an lvalue or a const lvalue
            switch (r.below(3))
            {
                case 0: put(new sp::any_allocator<T>(std::move(alloc)), i); break;
                case 1: put(new sp::any_allocator<T>(alloc), i); break;
                default: put(new sp::any_allocator<T>(std::as_const(alloc)), i);
            }
        };
        auto create = [&]
        {
            int k = int(r.below(5)), w = int(r.below(3)), id = int(r.below(2));
            hist += char('A' + k); hist += char('0' + w * 2 + id);
            switch (k)
            {
                case 0: put(new sp::any_allocator<T>(), {0, 0, 0}); break;
                case 1: give(std::allocator<T>(), {0, 0, 0}); break;
                case 2: give(std::pmr::polymorphic_allocator<T>(&res[w]), {2, w, 0}); break;
                case 3: give(Rec<T, 0>(ar[w], id), {3, w, id}); break;
                default: give(Rec<T, 1>(ar[w], id), {4, w, id}); break;
            }
        };
        auto counts = [&](const Ident& i) { return i.kind == 0 ? 0 : ar[i.arena].allocs + ar[i.arena].deallocs; };
        auto total = [&] { uint64_t t = 0; for (auto& a : ar) t += a.allocs + a.deallocs; return t; };
        create();
        create();
        for (size_t s = 0, n = 5 + r.below(30); s < n; ++s)
        {
            const size_t k = r.below(as.size());
            const unsigned op = unsigned(r.below(8));
            hist += char('a' + op); hist += char('0' + k);
            const uint64_t before = total();
            switch (op)
            {
                case 0: if (as.size() < 8) create(); break;
                case 1: if (as.size() < 8) { put(new sp::any_allocator<T>(*as[k]), ids[k]); } break;
                case 2: if (as.size() < 8) { put(new sp::any_allocator<T>(std::move(*as[k])), ids[k]); vt::cover("moves"); } break;
                case 3: if (as.size() < 8) { put(new sp::any_allocator<T>(as[k]->select_on_container_copy_construction()), ids[k]); } break;
                case 4: case 5:
                {
                    size_t n2 = r.pick({1, 2, 3, 10, 100});
                    T* p = std::allocator_traits<sp::any_allocator<T>>::allocate(*as[k], n2);
                    vt::check(p != nullptr, "null allocation");
                    if (ids[k].kind != 0)
                    {
                        auto it = ar[ids[k].arena].live.find(p);
                        vt::check(it != ar[ids[k].arena].live.end() && it->second == n2 * sizeof(T), "allocation did not reach the wrapped allocator with its count");
                    }
                    mem.push_back({p, n2, ids[k]});
                    vt::check(total() - before == (ids[k].kind != 0), "number of forwarded calls");
                    vt::cover("allocations");
                    break;
                }
                case 6:
                {
                    // release through any equal allocator
                    for (size_t q = 0; q < mem.size(); ++q)
                        if (mem[q].who == ids[k])
                        {
                            const size_t live = ids[k].kind ? ar[ids[k].arena].live.size() : 0;
                            std::allocator_traits<sp::any_allocator<T>>::deallocate(*as[k], mem[q].p, mem[q].n);
                            if (ids[k].kind) vt::check(ar[ids[k].arena].live.size() == live - 1, "release did not reach the wrapped allocator");
                            mem.erase(mem.begin() + long(q));
                            vt::cover("releases");
                            break;
                        }
                    break;
                }
                default:
                    if (as.size() > 2) { as.erase(as.begin() + long(k)); ids.erase(ids.begin() + long(k)); }
            }
            for (size_t i = 0; i < as.size(); ++i)
                for (size_t j = 0; j < as.size(); ++j)
                {
                    vt::check((*as[i] == *as[j]) == (ids[i] == ids[j]), vt::fmt("equality kinds %d %d", ids[i].kind, ids[j].kind));
                    vt::check((*as[i] != *as[j]) == !(ids[i] == ids[j]), "inequality");
                    vt::check(as[i]->equal(*as[j]) == (ids[i] == ids[j]), "equal()");
                    vt::cover("comparisons");
                }
            (void) counts;
        }
        for (auto& m : mem)
        {
            switch (m.who.kind)
            {
                case 0: std::allocator<T>().deallocate(m.p, m.n); break;
                default: ar[m.who.arena].deallocate(m.p, m.n * sizeof(T));
            }
        }
    }
    for (auto& a : ar) { vt::check(a.live.empty(), "memory lost"); a.live.clear(); }
    vt::distinct(vt::fnv(hist)); vt::sample(hist);
}

int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        switch (cs.rng.below(3))
        {
            case 0: vt::label("int"); return scenario<int>(cs);
            case 1: vt::label("u8"); return scenario<uint8_t>(cs);
            default: vt::label("string"); return scenario<std::string>(cs);
        }
    });
}
