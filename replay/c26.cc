// C26: random sequences of option setters and queries against a record of what was set
// STUBS (drafter.cc includes headers of absent submodules; the functions used here do not)
// SOURCES: packages/drafter/src/options.cc packages/drafter/src/drafter.cc
// LDFLAGS: -Wl,--unresolved-symbols=ignore-all
#include "common.h"
#include "drafter.h"
#include "options.h"
#include <memory>
int main()
{
    using namespace drafter;
    rp::at("null objects");
    if (is_name_required(nullptr) || is_skip_gen_bodies(nullptr) || is_skip_gen_body_schemas(nullptr) || are_sourcemaps_included(nullptr) || get_format(nullptr) != DRAFTER_SERIALIZE_YAML) rp::fail("null", "defaults of a null object");
    long n = rp::scale(3000, 100000);
    for (long i = 0; i < n; ++i) {
        drafter_parse_options* p = drafter_init_parse_options(); drafter_serialize_options* s = drafter_init_serialize_options();
        bool nr = false, sb = false, ss = false, sm = false; drafter_format f = DRAFTER_SERIALIZE_YAML; std::string d = "fresh";
        for (int k = 0; k < 9; ++k) {
            rp::at(d);
            if (is_name_required(p) != nr || is_skip_gen_bodies(p) != sb || is_skip_gen_body_schemas(p) != ss || are_sourcemaps_included(s) != sm || get_format(s) != f)
            { rp::fail("query", d + ": name_required=" + std::to_string(is_name_required(p)) + " skip_gen_bodies=" + std::to_string(is_skip_gen_bodies(p)) + " skip_gen_body_schemas=" + std::to_string(is_skip_gen_body_schemas(p)) + " sourcemaps=" + std::to_string(are_sourcemaps_included(s)) + " format=" + std::to_string(get_format(s))); break; }
            switch (rp::rnd(6)) {
                case 0: drafter_set_name_required(p); nr = true; d += ", name_required"; break;
                case 1: drafter_set_skip_gen_bodies(p); sb = true; d += ", skip_gen_bodies"; break;
                case 2: drafter_set_skip_gen_body_schemas(p); ss = true; d += ", skip_gen_body_schemas"; break;
                case 3: drafter_set_sourcemaps_included(s); sm = true; d += ", sourcemaps"; break;
                case 4: drafter_set_format(s, f = DRAFTER_SERIALIZE_JSON); d += ", JSON"; break;
                default: drafter_set_format(s, f = DRAFTER_SERIALIZE_YAML); d += ", YAML"; break;
            }
        }
        drafter_free_parse_options(p); drafter_free_serialize_options(s);
    }
    return rp::done();
}
