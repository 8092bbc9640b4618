// C15: nuclear, isotope and material data against frozen, audited copies; every id in turn
#include "common.h"
#include "ref.h"
#include "catima/abundance_database.h"
#include "catima/data_ionisation_potential.h"
#include "catima/cwrapper.h"
#include <climits>
using namespace mon;
using namespace catima;
static void bad(const char* what, int id, double a, double b) { H.violation(fmt("%s:%d", what, id), fmt("%s of %d: %.9g, expected %.9g", what, id, a, b)); }
static void is(const char* what, int id, double a, double b, double tol = 1e-9) { H.evaluations++; if (!(std::abs(a - b) <= tol * std::abs(b))) bad(what, id, a, b); }
static void element(int z) {
    is("atomic weight", z, element_atomic_weight(z), ref::weight(z));
    is("C atomic weight", z, atomic_weight(z), ref::weight(z));
    is("density", z, element_density(z), ref::density(z));
    is("ionisation potential", z, ipot(z), ref::ipot(z));
    int n = abundance::get_isotopes_num(z);
    is("number of isotopes", z, n, ref::niso(z));
    double s = 0, last = 2;
    for (int i = 0; i < n; i++) {
        int a = abundance::get_isotope_a(z, i); double f = abundance::get_abundance(z, i); auto q = abundance::get_isotope(z, i);
        is("isotope mass", z, a, ref::iso_a(z, i)); is("isotope abundance", z, f, ref::iso_f(z, i), 1e-6);
        if (q.first != a || q.second != (float)f) bad("isotope pair", z, q.first, a);
        if (f > last) bad("abundance order", z, f, last);
        last = f; s += f;
    }
    if (n > 0 && !(std::abs(s - 1) < 2e-3)) bad("abundance sum", z, s, 1);
    for (int i : {-1, INT_MIN, n, n + 1, INT_MAX, 100}) {
        H.evaluations++;
        if (abundance::get_isotope_a(z, i) != 0) bad("isotope mass out of range", z, abundance::get_isotope_a(z, i), 0);
        if (abundance::get_abundance(z, i) != 0) bad("abundance out of range", z, abundance::get_abundance(z, i), 0);
        auto q = abundance::get_isotope(z, i);
        if (q.first != 0 || q.second != 0) bad("isotope out of range", z, q.first, 0);
    }
    if (n > 0) H.count("elements with isotopes");
}
static void material_id(int id) {
    Material m = get_material(id);
    const ref::Compound* c = nullptr;
    for (auto& x : ref::compounds()) if (x.id == id) c = &x;
    if (c) {
        H.count("predefined materials");
        is("material density", id, m.density(), c->rho);
        is("material components", id, m.ncomponents(), c->e.size());
        Material g = get_compound((material)id);
        if (!(g == m)) bad("get_compound differs from get_material", id, 0, 1);
        auto w = ref::weights(c->e);
        double s = 0;
        std::set<int> seen;
        for (int i = 0; i < m.ncomponents(); i++) {
            auto t = m.get_element(i);
            s += m.weight_fraction(i);
            if (!seen.insert(t.Z).second) bad("element listed twice", id, t.Z, 0);
            bool f = false;
            for (size_t j = 0; j < w.size(); j++) if (w[j].z == t.Z) {
                f = true;
                is("element weight fraction", id, m.weight_fraction(i), w[j].w, 1e-9);
                is("element mass", id, t.A, c->e[j].a > 0 ? c->e[j].a : ref::weight(t.Z), 1e-9);
            }
            if (!f) bad("unexpected element", id, t.Z, 0);
        }
        if (!(std::abs(s - 1) < 1e-3)) bad("weight fraction sum", id, s, 1);
        double inv = 0;
        for (auto& e : w) inv += e.w / e.a;
        // molecule density x molar mass is the mass density
        is("molar mass consistency", id, m.number_density() * m.M(), 6.022140857 * m.density());
        double back = 0;
        for (int i = 0; i < m.ncomponents(); i++) back += m.number_density(i) * m.get_element(i).A;
        is("atom densities", id, back, 6.022140857 * m.density(), 1e-3);
        is("material thickness", id, m.thickness(), 0); is("material I", id, m.I(), 0);
    } else if (ref::density(id) > 0 && id <= 200) {
        H.count("element materials");
        is("element material components", id, m.ncomponents(), 1);
        if (m.ncomponents() == 1) { auto t = m.get_element(0); is("element material charge", id, t.Z, id); is("element material mass", id, t.A, ref::weight(id)); is("element material fraction", id, m.weight_fraction(0), 1); }
        is("element material density", id, m.density(), ref::density(id));
    } else {
        H.count("unknown ids");
        H.evaluations++;
        for (int i = 0; i < m.ncomponents(); i++) if (m.get_element(i).A != 0) bad("unknown id has content", id, m.get_element(i).A, 0);
        if (m.M() != 0) bad("unknown id has mass", id, m.M(), 0);
    }
}
static void one(long k, Rng& r) {
    int id;
    if (k < 700) id = (int)k - 50;
    else { static const int x[] = {INT_MIN, INT_MIN + 1, -1000, 1000, 65536, 65742, INT_MAX, INT_MAX - 1}; id = k < 708 ? x[k - 700] : (int)r.u64(); }
    element(id); material_id(id);
    // again after other lookups: the tables are constant
    get_material(r.irange(1, 349)); element_atomic_weight(r.irange(-5, 200)); abundance::get_isotope(r.irange(-5, 200), r.irange(-2, 12));
    material_id(id);
    H.nontrivial(id);
    if (id == 6 || id == 201 || id == -3 || id == 300) H.sample(fmt("{\"id\":%d,\"weight\":%.8g,\"density\":%.8g,\"components\":%d}", id, element_atomic_weight(id), get_material(id).density(), get_material(id).ncomponents()));
}
MON_MAIN(H.run(one))
