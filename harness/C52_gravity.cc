// The gravity of the bodies of the ephemeris.
//@ entry massive mode=real max-seconds=150
//@ entry massless mode=real max-seconds=150
//@ entry collision mode=real max-seconds=150
//@ entry jerk mode=real max-seconds=150
//@ entry jacobian mode=real max-seconds=150
//@ src $VERIF/rt/elementary.cc
//@ bound 3 massive bodies (any of them oblate) at any positions, or forming a right triangle of any size for the jerk and the Jacobian; 2 massless bodies at the same distances of 2 massive ones; any velocities; the effect of the spherical harmonics is replaced by any affine function of the displacement.
//@ assume The coordinates are real numbers (the rounding of the operations is not modelled).
#include "heavens.h"
#include "numerics/elementary_functions.hpp"

using namespace principia::numerics::_elementary_functions;

static double μ[bodies_max];
static double radius[bodies_max];
static bool flat[bodies_max];
static Recording<Motion> planets;
static FakeFixed const planetary(planets);

static std::unique_ptr<Sky> heavens(int n) {
  std::vector<not_null<std::unique_ptr<MassiveBody const>>> bodies;
  std::vector<DegreesOfFreedom<World>> dof;
  bodies_count = n;
  for (int i = 0; i < n; ++i) {
    μ[i] = vf_real("mu", 0.5, 5);
    flat[i] = vf_choose(2, "oblate");
    MassiveBody::Parameters const p(μ[i] * si::Unit<GravitationalParameter>);
    RotatingBody<World>::Parameters const q(radius[i] * Metre, 0 * Radian, at(0), 1 * Radian / Second, 0 * Radian, 0 * Radian);
    std::unique_ptr<MassiveBody const> b;
    if (flat[i]) b = std::make_unique<OblateBody<World>>(p, q, OblateBody<World>::Parameters(0.001, 1 * Metre));
    else b = std::make_unique<RotatingBody<World>>(p, q);
    given[i] = b.get();
    bodies.push_back(std::move(b));
    // Known to tell one from another.
    dof.emplace_back(World::origin + D({i * Metre, 0 * Metre, 0 * Metre}), V({0 * Metre / Second, i * (Metre / Second), 0 * Metre / Second}));
    where[i] = v<Length, World>("q");
    speed[i] = v<Speed, World>("v");
    stretch[i] = vf_real("stretch", -1, 1);
    slope[i] = vf_real("slope", -1, 1);
    shift[i] = {vf_real("shift.x", -1, 1), vf_real("shift.y", -1, 1), vf_real("shift.z", -1, 1)};
  }
  auto s = std::make_unique<Sky>(std::move(bodies), dof, at(0), Sky::AccuracyParameters(1 * Metre, 0.125), Sky::FixedStepParameters(planetary, 2 * Second));
  vf_check(int(s->bodies().size()) == n, "All the bodies are in the ephemeris");
  for (int i = 0; i < n; ++i) {
    vf_check(s->bodies()[i] == given[i], "The bodies are in the order in which they were given");
    whose[s->trajectory(given[i])] = i;
  }
  vf_check(int(whose.size()) == n, "Each body has its own trajectory");
  return s;
}

static void apart(D const& Δ) { vf_assume(num(Δ.Norm²()) > 0.5); }
static void all_apart() {
  for (int i = 0; i < bodies_count; ++i) for (int j = 0; j < i; ++j) apart(where[i] - where[j]);
}

// Puts the bodies in a triangle whose sides are proportional to 3, 4 and 5; the vector returned is orthogonal to its
// plane, and 4/3 of its first side.
static D triangle() {
  D const base = v<Length, World>("base");
  Length const k = vf_real("size", 0.2, 2) * Metre;
  D const e[3] = {D({k, 2 * k, 2 * k}), D({2 * k, k, -2 * k}), D({-2 * k, 2 * k, -k})};
  where[0] = base;
  where[1] = base + 3 * e[0];
  where[2] = base + 4 * e[1];
  return 4 * e[2];
}

// The acceleration due to body j at a displacement r from it.
static A pull(int j, D const& r) {
  Length const norm = Sqrt(r.Norm²());
  GravitationalParameter const m = μ[j] * si::Unit<GravitationalParameter>;
  return -m * r * norm / (r.Norm²() * r.Norm²()) + (flat[j] ? m * effect(j, r) : A());
}
static A expected_on(int i) {
  A a;
  for (int j = 0; j < bodies_count; ++j) {
    if (j == i) continue;
    a += pull(j, where[i] - where[j]);
    // The reaction to the pull of the oblateness of i.
    if (flat[i]) a -= μ[j] * si::Unit<GravitationalParameter> * effect(i, where[j] - where[i]);
  }
  return a;
}

VF_HARNESS(massive) {
  auto const s = heavens(3);
  all_apart();
  int const mode = vf_choose(3, "mode");
  if (mode == 0) {
    for (int i = 0; i < bodies_count; ++i)
      eq(s->ComputeGravitationalAccelerationOnMassiveBody(given[i], at(now)), expected_on(i), "ComputeGravitationalAccelerationOnMassiveBody");
  } else if (mode == 1) {
    std::vector<not_null<MassiveBody const*>> const b{given[2], given[0]};
    auto const a = s->ComputeGravitationalAccelerationOnMassiveBodies(b, s->EvaluateAllPositions(at(now)), at(now));
    vf_check(a.size() == 2, "There is an acceleration per body");
    eq(a[0], expected_on(2), "ComputeGravitationalAccelerationOnMassiveBodies");
    eq(a[1], expected_on(0), "ComputeGravitationalAccelerationOnMassiveBodies");
  } else {
    // The equation that is integrated.
    vf_check(planets.instances == 1, "The equation of motion is given to the integrator");
    eq(planets.step, 2 * Second, "The step");
    auto const& state = planets.problem.initial_state;
    vf_check(state.time.value == at(0), "The initial time");
    vf_check(state.positions.size() == 3 && state.velocities.size() == 3, "All the bodies are integrated");
    std::vector<Position<World>> positions;
    std::vector<A> accelerations(3);
    int body[3];
    bool seen[3] = {};
    for (int k = 0; k < 3; ++k) {
      double const x = num((state.positions[k].value - World::origin).coordinates().x);
      body[k] = x < 0.5 ? 0 : x < 1.5 ? 1 : 2;
      eq(state.positions[k].value - World::origin, D({body[k] * Metre, 0 * Metre, 0 * Metre}), "The initial positions");
      eq(state.velocities[k].value, V({0 * Metre / Second, body[k] * (Metre / Second), 0 * Metre / Second}), "The initial velocities");
      vf_check(!seen[body[k]], "All the bodies are integrated");
      seen[body[k]] = true;
      positions.push_back(World::origin + where[body[k]]);
      // The previous values are not used.
      accelerations[k] = v<Acceleration, World>("old");
    }
    vf_check(planets.problem.equation.compute_acceleration(at(now), positions, accelerations).ok(), "The acceleration exists");
    for (int k = 0; k < 3; ++k) eq(accelerations[k], expected_on(body[k]), "The accelerations between the massive bodies");
  }
}

VF_HARNESS(massless) {
  // The radii are too small for a collision.
  for (int i = 0; i < 2; ++i) radius[i] = 0.5;
  auto const s = heavens(2);
  int const mode = vf_choose(3, "mode");
  D const up = triangle();
  D const q[2] = {where[0] + up, where[0] - up};
  if (mode == 0) {
    A a;
    for (int i = 0; i < 2; ++i) a += pull(i, q[0] - where[i]);
    eq(s->ComputeGravitationalAccelerationOnMasslessBody(World::origin + q[0], at(now)), a, "ComputeGravitationalAccelerationOnMasslessBody");
  } else if (mode == 1) {
    SpecificEnergy w;
    for (int i = 0; i < 2; ++i) {
      GravitationalParameter const m = μ[i] * si::Unit<GravitationalParameter>;
      w += -m / Sqrt((q[0] - where[i]).Norm²()) + (flat[i] ? m * potential_effect(i, q[0] - where[i]) : SpecificEnergy());
    }
    eq(s->ComputeGravitationalPotential(World::origin + q[0], at(now)), w, "ComputeGravitationalPotential");
  } else {
    // The equation that is integrated for massless bodies.
    last_time = at(20);
    Recording<Motion> massless;
    FakeFixed const fixed(massless);
    DiscreteTrajectory<World> t0, t1;
    t0.Append(at(1), {World::origin + D({7 * Metre, 0 * Metre, 0 * Metre}), V({1 * Metre / Second, 0 * Metre / Second, 0 * Metre / Second})}).IgnoreError();
    t1.Append(at(1), {World::origin + D({8 * Metre, 0 * Metre, 0 * Metre}), V({2 * Metre / Second, 0 * Metre / Second, 0 * Metre / Second})}).IgnoreError();
    A const push = v<Acceleration, World>("push");
    Sky::IntrinsicAccelerations intrinsic;
    int const pushed = vf_choose(3, "pushed");
    auto const thrust = [push](Instant const& t) { vf_check(t == at(now), "time of the push"); return push; };
    if (pushed == 0) intrinsic = {nullptr, thrust};
    if (pushed == 1) intrinsic = {thrust, nullptr};
    auto const instance = s->NewInstance({&t0, &t1}, intrinsic, Sky::FixedStepParameters(fixed, 3 * Second));
    eq(massless.step, 3 * Second, "The step");
    auto const& state = massless.problem.initial_state;
    vf_check(state.time.value == at(1), "The initial time is that of the trajectories");
    vf_check(state.positions.size() == 2 && state.velocities.size() == 2, "All the trajectories are integrated");
    for (int k = 0; k < 2; ++k) {
      eq(state.positions[k].value - World::origin, D({(7 + k) * Metre, 0 * Metre, 0 * Metre}), "The initial positions");
      eq(state.velocities[k].value, V({(1 + k) * (Metre / Second), 0 * Metre / Second, 0 * Metre / Second}), "The initial velocities");
    }
    std::vector<A> accelerations{v<Acceleration, World>("old"), v<Acceleration, World>("old")};
    auto const status = massless.problem.equation.compute_acceleration(at(now), {World::origin + q[0], World::origin + q[1]}, accelerations);
    vf_check(status.ok(), "There is no collision");
    for (int k = 0; k < 2; ++k) {
      A a = pushed == 1 - k ? push : A();
      for (int i = 0; i < 2; ++i) a += pull(i, q[k] - where[i]);
      eq(accelerations[k], a, "The accelerations of massless bodies");
    }
    // The states are appended to the trajectories.
    Motion::State after(at(4), {World::origin + q[0], World::origin + q[1]}, {speed[0], speed[1]});
    massless.append(after);
    vf_check(t0.size() == 2 && t1.size() == 2, "The states are appended");
    vf_check(t0.back().time == at(4) && t1.back().time == at(4), "The states are appended at their time");
    eq(t0.back().degrees_of_freedom.position() - World::origin, q[0], "The states are appended to their own trajectories");
    eq(t1.back().degrees_of_freedom.position() - World::origin, q[1], "The states are appended to their own trajectories");
    eq(t0.back().degrees_of_freedom.velocity(), speed[0], "The velocities are appended to their own trajectories");
    eq(t1.back().degrees_of_freedom.velocity(), speed[1], "The velocities are appended to their own trajectories");
  }
}

// The derivative of the central acceleration due to body j, applied to u.
template<typename U>
static auto gradient(int j, D const& r, U const& u) {
  Length const norm = Sqrt(r.Norm²());
  GravitationalParameter const m = μ[j] * si::Unit<GravitationalParameter>;
  auto const n2 = r.Norm²();
  return m * norm * (3 * InnerProduct(r, u) * r / (n2 * n2 * n2) - u / (n2 * n2));
}

VF_HARNESS(collision) {
  for (int i = 0; i < 2; ++i) radius[i] = vf_real("radius", 0.5, 20);
  auto const s = heavens(2);
  D const up = triangle();
  last_time = at(20);
  Recording<Motion> massless;
  FakeFixed const fixed(massless);
  DiscreteTrajectory<World> t0, t1;
  t0.Append(at(1), {World::origin + up, V()}).IgnoreError();
  t1.Append(at(1), {World::origin - up, V()}).IgnoreError();
  auto const instance = s->NewInstance({&t0, &t1}, Sky::NoIntrinsicAccelerations, Sky::FixedStepParameters(fixed, 3 * Second));
  std::vector<A> accelerations(2);
  // One of the massless bodies is twice as far.
  double const k = num(up.Norm()) / 12;
  int const far = vf_choose(3, "far");
  D const q[2] = {where[0] + (far == 0 ? 10 : 1) * up, where[0] - (far == 1 ? 10 : 1) * up};
  bool const inside = 0.99 * radius[0] > (12 + 0.001) * k || 0.99 * radius[1] > (15 + 0.001) * k;
  bool const outside = 0.99 * radius[0] < (12 - 0.001) * k && 0.99 * radius[1] < (15 - 0.001) * k;
  vf_assume(inside || outside);
  auto const status = massless.problem.equation.compute_acceleration(at(now), {World::origin + q[0], World::origin + q[1]}, accelerations);
  vf_check(status.ok() == !inside, "A collision is detected when a body is inside another one");
  if (!status.ok()) vf_check(absl::IsOutOfRange(status), "The status of a collision");
}

VF_HARNESS(jerk) {
  int const mode = vf_choose(3, "mode");
  auto const s = heavens(mode == 2 ? 2 : 3);
  D const up = triangle();
  auto const expected = [](int i) {
    J a;
    for (int j = 0; j < bodies_count; ++j) if (j != i) a += gradient(j, where[i] - where[j], speed[i] - speed[j]);
    return a;
  };
  if (mode == 0) {
    int const i = vf_choose(3, "body");
    eq(s->ComputeGravitationalJerkOnMassiveBody(given[i], at(now)), expected(i), "ComputeGravitationalJerkOnMassiveBody");
  } else if (mode == 1) {
    std::vector<not_null<MassiveBody const*>> const b{given[2], given[0]};
    auto const a = s->ComputeGravitationalJerkOnMassiveBodies(b, s->EvaluateAllDegreesOfFreedom(at(now)));
    vf_check(a.size() == 2, "There is a jerk per body");
    eq(a[0], expected(2), "ComputeGravitationalJerkOnMassiveBodies");
    eq(a[1], expected(0), "ComputeGravitationalJerkOnMassiveBodies");
  } else {
    DegreesOfFreedom<World> const p(World::origin + where[0] + up, v<Speed, World>("w"));
    J a;
    for (int j = 0; j < bodies_count; ++j) {
      a += gradient(j, p.position() - World::origin - where[j], p.velocity() - speed[j]);
    }
    eq(s->ComputeGravitationalJerkOnMasslessBody(p, at(now)), a, "ComputeGravitationalJerkOnMasslessBody");
  }
}

VF_HARNESS(jacobian) {
  auto const s = heavens(3);
  triangle();
  int const i = vf_choose(3, "body");
  auto const j = s->ComputeJacobianOnMassiveBody(given[i], at(now));
  for (int k = 0; k < 3; ++k) {
    R3Element<double> c{0, 0, 0};
    (k == 0 ? c.x : k == 1 ? c.y : c.z) = 1;
    Vector<double, World> const u(c);
    Vector<Inverse<Square<Time>>, World> x;
    for (int l = 0; l < 3; ++l) if (l != i) x += gradient(l, where[i] - where[l], u);
    eq(j * u, x, "ComputeJacobianOnMassiveBody");
  }
}
