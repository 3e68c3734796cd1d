#include "qlv.h"
#include "qlpeps/basic.h"
#include "qlpeps/two_dim_tn/framework/site_idx.h"
using namespace qlpeps;
using namespace qlv;
//@ opp_table: include/qlpeps/basic.h :: Opposite -- LEFT<->RIGHT, UP<->DOWN
OB(opp_table) {
  REQ(opp_table, Opposite(LEFT) == RIGHT);
  REQ(opp_table, Opposite(RIGHT) == LEFT);
  REQ(opp_table, Opposite(UP) == DOWN);
  REQ(opp_table, Opposite(DOWN) == UP);
}
//@ opp_involution: include/qlpeps/basic.h :: Opposite -- an involution without fixed point, orientation preserving
OB(opp_involution) {
  const BMPSPOSITION all[] = {LEFT, DOWN, RIGHT, UP};
  for (int i = 0; i < 4; ++i) {
    REQ(opp_involution, Opposite(Opposite(all[i])) == all[i]);
    REQ(opp_involution, Opposite(all[i]) != all[i]);
    REQ(opp_involution, Orientation(Opposite(all[i])) == Orientation(all[i]));
  }
}
//@ orient_table: include/qlpeps/basic.h :: Orientation -- LEFT/RIGHT horizontal, UP/DOWN vertical
OB(orient_table) {
  REQ(orient_table, Orientation(LEFT) == HORIZONTAL && Orientation(RIGHT) == HORIZONTAL);
  REQ(orient_table, Orientation(UP) == VERTICAL && Orientation(DOWN) == VERTICAL);
}
//@ rotate_table: include/qlpeps/basic.h :: Rotate -- exchanges HORIZONTAL and VERTICAL
OB(rotate_table) {
  REQ(rotate_table, Rotate(HORIZONTAL) == VERTICAL);
  REQ(rotate_table, Rotate(VERTICAL) == HORIZONTAL);
}
//@ mpo_index: include/qlpeps/basic.h :: MPOIndex -- the leg index of a position in the left, down, right, up order of a TPS tensor
OB(mpo_index) {
  REQ(mpo_index, MPOIndex(LEFT) == 0);
  REQ(mpo_index, MPOIndex(DOWN) == 1);
  REQ(mpo_index, MPOIndex(RIGHT) == 2);
  REQ(mpo_index, MPOIndex(UP) == 3);
}
//@ site_idx: include/qlpeps/two_dim_tn/framework/site_idx.h :: SiteIdx -- row() is component 0, col() component 1, for reading and writing
OB(site_idx, size_t r, size_t c) {
  SiteIdx s{r, c};
  const SiteIdx &cs = s;
  REQ(site_idx, cs.row() == r && cs.col() == c);
  REQ(site_idx, s[0] == cs.row() && s[1] == cs.col());
  s.row() = c;
  s.col() = r;
  REQ(site_idx, cs.row() == c && cs.col() == r);
}
