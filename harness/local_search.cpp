// Local search with concrete search orders.
#include "local_search.h"

extern "C" void h_ls_mix2_load() { mix<S::Relocate<1>, S::Swap<1, 1>, S::SwapTails>(2, Feat::LOAD, {2}, 0); }
extern "C" void h_ls_mix2_win() { mix<S::Relocate<1>, S::Swap<1, 1>, S::SwapTails>(2, Feat::WIN, {2}, 2); }
extern "C" void h_ls_mix2_time() { mix<S::Relocate<1>, S::Swap<1, 1>, S::SwapTails>(2, Feat::TIME, {2}, 3); }
extern "C" void h_ls_mix3_dist() { mix<S::Relocate<1>, S::SwapTails>(3, Feat::DIST, {2}, 0); }
extern "C" void h_ls_mix3_swap() { mix<S::Relocate<2>, S::Swap<2, 1>>(3, Feat::DIST, {2}, 0); }
extern "C" void h_ls_mix3_time() { mix<S::Relocate<1>>(3, Feat::TIME, {2}, 0); }
extern "C" void h_ls_mix2_reload() { mix<S::Relocate<1>, S::RelocateWithDepot, S::RemoveAdjacentDepot>(2, Feat::LOAD, {2}, 0, true); }
extern "C" void h_ls_mix2_reloads() { mix<S::SwapTails, S::RelocateWithDepot, S::RemoveAdjacentDepot>(2, Feat::LOAD, {2}, 5, true); }
extern "C" void h_ls_relocate() { relocate(); }
extern "C" void h_ls_swaps() { swaps(); }
extern "C" void h_ls_fixed() { fixedcost(); }
extern "C" void h_ls_again() { again(); }
extern "C" void h_ls_optional() { optional(true, 0, 0); }
extern "C" void h_ls_optionals() { optional(true, 0, 7); }
extern "C" void h_ls_optionalp() { optional(false, 1, 3); }
extern "C" void h_ls_optionalp2() { optional(false, 2, 5); }
extern "C" void h_ls_group() { groups(true, 0, 0); }
extern "C" void h_ls_groupp() { groups(false, 2, 0); }
extern "C" void h_ls_groupp2() { groups(false, 1, 2); }
extern "C" void h_ls_ship() { shipments(true, 0, 0, 0); }
extern "C" void h_ls_shipopt() { shipments(true, 0, 0, 1); }
extern "C" void h_ls_shipp() { shipments(false, 1, 0, 0); }
extern "C" void h_ls_shipoptp() { shipments(false, 2, 3, 1); }
extern "C" void h_ls_depot() { depots(true, 0, 0); }
extern "C" void h_ls_depotp() { depots(false, 1, 0); }
extern "C" void h_ls_repair() { repair(0); }
extern "C" void h_ls_repairs() { repair(4); }
extern "C" void h_ls_repairp() { repairperturb(1, 0); }
extern "C" void h_ls_repairp2() { repairperturb(2, 3); }
extern "C" void h_ls_repairp3() { repairperturb(3, 9); }

extern "C" void h_ls_book3() { book(planOf({{0, {C(0), C(1)}}, {0, {C(2)}}}), 3, 0, {2}, 2, 0, false); }
extern "C" void h_ls_book3s() { book(planOf({{0, {C(0), C(1)}}, {0, {C(2)}}}), 3, 0, {3}, 2, 5, false); }
extern "C" void h_ls_book3u() { book(planOf({{0, {C(0), C(1)}}, {0, {C(2)}}}), 3, 0, {2}, 2, 0, true); }
extern "C" void h_ls_book4() { book(planOf({{0, {C(0), C(1)}}, {0, {C(2), C(3)}}}), 4, 0, {2}, 2, 0, false); }
extern "C" void h_ls_book4s() { book(planOf({{0, {C(0)}}, {0, {C(2)}}, {1, {C(1), C(3)}}}), 4, 0, {2, 2}, 2, 3, true); }
extern "C" void h_ls_book4n() { book(planOf({{0, {C(0), C(1)}}, {0, {C(2), C(3)}}}), 4, 0, {3}, 2, 0, false, 1); }
extern "C" void h_ls_book4m() { book(planOf({{0, {C(0), C(1)}}, {0, {C(2), C(3)}}}), 4, 0, {3}, 2, 9, true, 2); }
extern "C" void h_ls_book4t() { book(planOf({{0, {C(0), C(1)}}, {0, {C(2), C(3)}}}), 4, 0, {2}, 2, 0, false, 0, true); }
extern "C" void h_ls_bookship() { book(planOf({{0, {C(0), P(0), C(1), L(0)}}, {0, {C(2)}}}), 3, 1, {2}, 2, 0, true); }
extern "C" void h_ls_booktrip() { book(planOf({{0, {C(0), C(1)}}, {1, {C(2), C(3)}}}), 4, 0, {1, 2}, 3, 2, false); }
