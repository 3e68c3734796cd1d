OB(ada_two, double a, double b, double lr, double l2, double eps, double init, double g0, double h0, double g1, double h1) {
  StartRun();
  Opt o(Ada(1, lr, eps, init), C_, 0, 1);
  W w = o.AdaGradUpdate(St(a, b), St(g0, h0), lr);
  const double G = init + qlv_uf_abs2(g0), H = init + qlv_uf_abs2(h0);
  const double a1 = a - AdaStep(G, g0, lr, eps), b1 = b - AdaStep(H, h0, lr, eps);
  REQF(ada_two, first, Eq(V(w), a1)); REQF(ada_two, first_b, Eq(V2(w), b1));
  w = o.AdaGradUpdate(w, St(g1, h1), l2);
  REQF(ada_two, second, Eq(V(w), a1 - AdaStep(G + qlv_uf_abs2(g1), g1, l2, eps)));
  REQF(ada_two, second_b, Eq(V2(w), b1 - AdaStep(H + qlv_uf_abs2(h1), h1, l2, eps)));
}
OB(adam_three, double a, double b, double lr, double l2, double l3, ADP, double g0, double h0, double g1, double h1, double g2, double h2) {
  ASSUME(wd > 0);
  StartRun();
  const AdamParams p(b1, b2, eps, wd);
  OptimizerParams op = Pars(1, lr); op.algorithm_params = p;
  Opt o(op, C_, 0, 1);
  AdamOracle x, y;
  W w = o.AdamUpdate(St(a, b), St(g0, h0), lr, p);
  double wa = x.Step(a, g0, lr, p), wb = y.Step(b, h0, lr, p);
  REQF(adam_three, first, Eq(V(w), wa)); REQF(adam_three, first_b, Eq(V2(w), wb));
  w = o.AdamUpdate(St(wa, wb), St(g1, h1), l2, p);
  wa = x.Step(wa, g1, l2, p); wb = y.Step(wb, h1, l2, p);
  REQF(adam_three, second, Eq(V(w), wa)); REQF(adam_three, second_b, Eq(V2(w), wb));
  w = o.AdamUpdate(St(wa, wb), St(g2, h2), l3, p);
  wa = x.Step(wa, g2, l3, p); wb = y.Step(wb, h2, l3, p);
  REQF(adam_three, third, Eq(V(w), wa)); REQF(adam_three, third_b, Eq(V2(w), wb));
}
