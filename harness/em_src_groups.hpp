// several groups and sources, inputs and the cache
static json phases(bool stator)
{
   json o = obj(), a = obj(), b = obj();
   if (stator) { a["cwStator"] = list(1); a["ccwStator"] = list(2); } else { a["z"] = list(1); a["-z"] = list(2); }
   b["x"] = list(3); b["y"] = list(4, 5);
   o["A"] = a; o["B"] = b;
   return o;
}
static double amp(miso::CurrentDensityCoefficient &c, Src &s, int at, int k) { s.t.Attribute = at; s.t.SetIntPoint(s.ip); Vector v(3); c.Eval(v, s.t, *s.ip); return v(k); }
static void groups(miso::CurrentDensityCoefficient &c, Src &s, double a, double b, const char *label, bool stator)
{
   if (!stator) { vp_eq(label, amp(c, s, 1, 2), a); vp_eq(label, amp(c, s, 2, 2), -a); }
   vp_eq(label, amp(c, s, 3, 0), b); vp_eq(label, amp(c, s, 4, 1), b); vp_eq(label, amp(c, s, 5, 1), b);
   vp_eq(OFF, amp(c, s, 6, 0), 0.0);
}
VP_CASE(h_groups)
{
   const bool stator = vp_bool("stator");
   Src s(3, 1); adept::Stack st;
   miso::CurrentDensityCoefficient c(st, phases(stator));
   groups(c, s, 1.0, 1.0, VAL, stator);
   double a = vp_real("A", 0, 1.5, 2), b = vp_real("B", 0, 2.5, 3), b2 = vp_real("B2", 0, 3.5, 4);
   vp_assume(a > 1.1); vp_assume(b > 1.1); vp_assume(b2 > b);
   miso::MISOInputs in; in["current_density:A"] = a; in["current_density:B"] = b; in["other"] = 9.0;
   vp_true(UPD, setInputs(c, in));
   groups(c, s, a, b, VAL, stator);
   vp_true("inputs with the values already set change nothing", !setInputs(c, in));
   miso::MISOInputs one; one["current_density:B"] = b2;
   vp_true(UPD, setInputs(c, one));
   groups(c, s, a, b2, "a group whose input is not given keeps its current", stator);
   double a2 = vp_real("A2", 0, 2.5, 3); vp_assume(a2 > a);
   miso::MISOInputs first; first["current_density:A"] = a2;
   vp_true(UPD, setInputs(c, first)); a = a2;
   groups(c, s, a, b2, "a group whose input is not given keeps its current", stator);
   c.cacheCurrentDensity();
   groups(c, s, a, b2, CACHE, stator);
   c.zeroCurrentDensity();
   groups(c, s, 0.0, 0.0, "zeroed groups carry no current", stator);
   c.resetCurrentDensityFromCache();
   groups(c, s, a, b2, CACHE, stator);
}
// currents never cached come back as zero
VP_CASE(h_uncached)
{
   const bool stator = vp_bool("stator");
   Src s(3, 1); adept::Stack st;
   miso::CurrentDensityCoefficient c(st, phases(stator));
   c.resetCurrentDensityFromCache();
   groups(c, s, 0.0, 0.0, "currents that were never cached come back as zero", stator);
}
// -------------------------------------------------------------- two dimensions
static double amp(miso::CurrentDensityCoefficient2D &c, Src &s, int at) { s.t.Attribute = at; s.t.SetIntPoint(s.ip); return c.Eval(s.t, *s.ip); }
VP_CASE(h_2d)
{
   Src s(2, 1); adept::Stack st;
   json o = obj(), a = obj(), b = obj();
   a["z"] = list(1, 7); a["box1"] = list(2); b["-z"] = list(3); b["box2"] = list(4); o["A"] = a; o["B"] = b;
   miso::CurrentDensityCoefficient2D c(st, o);
   double y = s.x(1), A = 1.0, B = 1.0, q = vp_real("q", 0, -1, 1);
   auto all = [&](const char *label)
   {
      // the load of the potential is minus the current density
      vp_eq(label, amp(c, s, 1), -A); vp_eq(label, amp(c, s, 7), -A); vp_eq(label, amp(c, s, 2), 6 * (y - 0.5) * A);
      vp_eq(label, amp(c, s, 3), B); vp_eq(label, amp(c, s, 4), -6 * (y - 0.5) * B); vp_eq(OFF, amp(c, s, 5), 0.0);
   };
   all(VAL);
   A = vp_real("A", 0, 1.5, 2); B = vp_real("B", 0, 2.5, 3); vp_assume(A > 1.1); vp_assume(B > 1.1);
   double A0 = A, B0 = B;
   miso::MISOInputs in; in["current_density:A"] = A; in["current_density:B"] = B;
   vp_true(UPD, setInputs(c, in)); all(VAL);
   vp_true("inputs with the values already set change nothing", !setInputs(c, in));
   A = vp_real("A2", 0, 2.5, 3); vp_assume(A > A0); A0 = A;
   miso::MISOInputs first; first["current_density:A"] = A;
   vp_true(UPD, setInputs(c, first)); all("a group whose input is not given keeps its current");
   for (int at = 1; at <= 5; ++at) { s.t.Attribute = at; nodes(s, [&] { return q * c.Eval(s.t, *s.ip); }, [&](DenseMatrix &P) { c.EvalRevDiff(q, s.t, *s.ip, P); }); }
   c.cacheCurrentDensity(); c.zeroCurrentDensity(); A = B = 0.0; all("zeroed groups carry no current");
   c.resetCurrentDensityFromCache(); A = A0; B = B0; all(CACHE);
}
VP_CASE(h_2d_uncached)
{
   Src s(2, 1); adept::Stack st;
   miso::CurrentDensityCoefficient2D c(st, one("z"));
   c.resetCurrentDensityFromCache();
   vp_eq("currents that were never cached come back as zero", amp(c, s, 3), 0.0);
}
// ---------------------------------------------------------------- magnetization
static void magnet(int D, const char *source, int kind)
{
   Src s(D, attr()); adept::Stack st;
   double B0 = 1.39, T0 = 293.15, al = -0.12;   // defaults
   const double T = vp_real("T", 0, 300, 400), x = s.x(0), y = s.x(1);
   json lib = obj(); lib["mag"] = obj();
   if (vp_bool("given"))
   {
      B0 = vp_real("B0", 0, 0.5, 1.5); T0 = vp_real("T0", 0, 290, 300); al = vp_real("al", 0, -0.2, -0.1);
      lib["mag"]["B_r_T_ref"] = B0; lib["mag"]["T_ref"] = T0; lib["mag"]["alpha_B_r"] = al;
   }
   if (kind == 0) { vp_assume(x * x + y * y > 0.01); }
   const double r = kind == 0 ? len2(x, y) : 1.0;
   json o = obj(), g = obj(); g[source] = list(3, 6); o["mag"] = g;
   miso::MagnetizationCoefficient c(st, o, lib, D);
   std::string n = source;
   double e[3] = {0, 0, 0};
   if (n == "north") { e[0] = x / r; e[1] = y / r; }
   if (n == "south") { e[0] = -x / r; e[1] = -y / r; }
   if (n == "cw") { e[0] = -y / r; e[1] = x / r; }
   if (n == "ccw") { e[0] = y / r; e[1] = -x / r; }
   if (n == "x") { e[0] = 1; }
   if (n == "y") { e[1] = 1; }
   if (n == "z") { e[2] = 1; }
   s.t.SetIntPoint(s.ip);
   // remnant flux of the temperature; without a temperature, of the reference models' zero state
   Vector v(D), dv(D);
   const double B = B0 * (1 + al / 100 * (T - T0));
   c.Eval(v, s.t, *s.ip, T);
   for (int k = 0; k < D; ++k) { vp_eq(MAG, v(k), B * e[k]); }
   c.EvalStateDeriv(dv, s.t, *s.ip, T);
   for (int k = 0; k < D; ++k) { vp_eq("its temperature derivative is exact", dv(k), B0 * al / 100 * e[k]); }
   double b[3]; Vector vb(b, D);
   for (int k = 0; k < D; ++k) { b[k] = vp_real("vb", k, -1, 1); }
   nodes(s, [&] { Vector w(D); c.Eval(w, s.t, *s.ip, T); return w * vb; }, [&](DenseMatrix &P) { c.EvalRevDiff(vb, s.t, *s.ip, T, P); });
   s.t.Attribute = 4; s.t.SetIntPoint(s.ip);
   c.Eval(v, s.t, *s.ip, T); c.EvalStateDeriv(dv, s.t, *s.ip, T);
   for (int k = 0; k < D; ++k) { vp_eq("elements of no magnet have no magnetization", v(k), 0.0); vp_eq("elements of no magnet have no magnetization", dv(k), 0.0); }
}
VP_CASE(h_mag_north) { magnet(2 + vp_choice("dim", 0, 1), "north", 0); }
VP_CASE(h_mag_south) { magnet(2 + vp_choice("dim", 0, 1), "south", 0); }
VP_CASE(h_mag_cw) { magnet(2 + vp_choice("dim", 0, 1), "cw", 0); }
VP_CASE(h_mag_ccw) { magnet(2 + vp_choice("dim", 0, 1), "ccw", 0); }
VP_CASE(h_mag_x) { magnet(2 + vp_choice("dim", 0, 1), "x", 1); }
VP_CASE(h_mag_y) { magnet(2 + vp_choice("dim", 0, 1), "y", 1); }
VP_CASE(h_mag_z) { magnet(3, "z", 1); }
