import glob,re
head = r'''# Design

Principia is the library behind an n-body gravitation mod for Kerbal Space
Program: integer and text utilities (`base`), typed physical quantities and
geometry (`quantities`, `geometry`), numerical methods (`numerics`,
`integrators`), celestial mechanics (`physics`, `astronomy`) and the plugin that
uses them (`ksp_plugin`).  Nearly all of it is header-only templates.  The tests
that run here (22) exercise a very small part of it; the repository's own tests
sample a few configurations per function with loose numerical tolerances.

Every claimed property is decided by **symbolic execution of the compiled code
with an SMT solver** (a purpose-built engine, `engine/`, over LLVM bitcode).
There is no property for which another technique was substituted.

## 1. The machinery

### 1.1 From /repo to bitcode, on every run

`tools/vfcheck.py PROP` takes the harnesses `harness/PROP_*.cc`.  Each one is
C++23 that `#include`s the real headers of `/repo` (and links real `.cpp` files
listed by `//@ src`), is compiled by clang++-20 to LLVM bitcode from the current
working tree, and is run by `build/symex` (built by `setup_cmd` from `engine/`).
Nothing is cached from one run to the next, so that any change to the code is
seen; nothing looks at the text of the sources.  Protobuf classes are generated
from the repository's `.proto` files by `tools/pbgen.py` (messages with real
presence, oneofs, repeated fields, extensions), because the protobuf runtime is
not installed; `shim/` has stand-ins for the other absent libraries (absl
containers and synchronization, glog/absl logging whose CHECKs abort, zfp,
gipfeli, core-math, lodepng).

### 1.2 The engine

`engine/exec.cc` interprets LLVM IR with symbolic values: memory is a set of
byte-addressed objects with bounds, lifetime and initialization checks; branches
on symbolic conditions fork, both sides being decided by the solver; threads are
scheduled at each synchronization operation, each choice being a symbolic one
(bounded number of preemptions).  Out-of-bounds accesses, use after free, reads
of uninitialized memory in branches, unreachable code, failed CHECKs and aborts
are violations unless the harness says that an abort is the expected outcome.

Numbers have two modes, chosen per entry:
* *IEEE mode*: integers are bit-vectors, floating-point numbers are the IEEE
  theory of z3.  Used for integers, text, serialization, structure and schedules.
* *real mode*: floating-point values are exact reals.  Every expression is kept
  as a ratio of multivariate polynomials over ℚ (`poly.cc`), reduced modulo the
  algebraic relations known on the path (c² + s² = 1 for each angle, r² = x for
  each square root, the unit norm of quaternions, ...).  An assertion of equality
  is decided by showing that the numerator of the difference reduces to 0; when it
  doesn't, by linear bounds over the box of the variables, then by z3's nonlinear
  real arithmetic.  Sine, cosine, exponential-like functions are symbols related
  by the addition formulæ.  *Rounding is not modelled in this mode*, which is
  stated in the evidence; harnesses use tolerances only for the decimal constants
  that are in the code.

An assertion is `vf_check(cond, "text")` or `vf_near(a, b, tolerance, "text")`
over the symbolic inputs `vf_bits`, `vf_real`, `vf_angle`, `vf_choose`, ...  A path
whose assertion has no verdict (time-out) is reported as INCOMPLETE in the
evidence, never as a violation.

### 1.3 Counterexamples are replayed

When the solver finds a counterexample, the values of the inputs are written to
`evidence/replay/`, and the same harness, compiled natively with the real code
(no engine), is executed with these inputs.  A VIOLATION is only printed if the
native program fails the same assertion (or aborts).  Conversely some traces of
successful paths are also replayed natively ("traces validated" in the evidence)
to validate the engine and the shims against the compiler's own code: values
given to `vf_observe` have to agree.  A counterexample that is not confirmed is
reported as an inconclusive result, with exit 0 and a line in the evidence.

### 1.4 Commands, cost, tiers

quick = `tools/vfcheck.py ID`; thorough = `tools/vfcheck.py ID --thorough`: the
limits of time are three times as large, threads get one more preemption, and
more traces are validated.  A check takes from 5 to 130 s on 8 cores; all of them
about 35 minutes one after another.

### 1.5 Known findings

`known_findings.txt`: `known:` lines name a property, entry and assertion, and
print a KNOWN-FINDING line instead of a violation for that assertion only.
`fixed:` lines are a record and suppress nothing.

## 2. The properties

For each one: the entries are the functions in the harness, with the oracle that
they use; the bounds and assumptions are those written in the headers of the
harnesses, which the evidence repeats.

'''
O = {
'C01':"The oracle is the definition of hexadecimal digits, byte by byte, for symbolic bytes; guards around the buffers detect any write outside of the exact length. Tests: a few strings.",
'C02':"A reference encoder (bit packing into 15-bit symbols, the repertoire of the specification) is compared with the code, then decoded back, for arbitrary bytes.",
'C03':"Definitions: shifting loops for logarithms and bit reversal, floor division for mod. The solver decides for all values of the word.",
'C04':"An explicit partition (equality matrix) is updated in parallel with each symbolic union; the structure must give the same equivalence after every sequence.",
'C05':"Every nullness of every pointer is a symbolic choice; a null in a not_null, or a use after a move, is a violation.",
'C08':"The symbolic bytes, sizes and schedules of the two threads: the concatenation of the chunks must be the serialized message, deserialization must call back once, in order.",
'C09':"All the schedules within the bound on preemptions, with the shims of mutexes and conditions being scheduling points: futures hold the right value, destructors wait, statuses are aggregated; deadlocks are violations.",
'C15':"Definitions by index of products, sums, blocks, transposes, norms; polynomial identities in the elements.",
'C16':"A decomposition multiplies back to the matrix and has the required form; A x = b for the solutions; eigenvectors satisfy A v = λ v.",
'C17':"Σ aᵢ(x - x₀)ⁱ, its derivative and primitive; operators compared pointwise; evaluation by both schemes and all degrees dispatched.",
'C18':"The recurrence of the Чебышёв polynomials; the roots are those of the polynomial of degree 1; if a root exists MayHaveRealRoots is true.",
'C19':"The interpolants meet values and derivatives; extrema are zeros of the derivative; bounds are above any sample in the interval (a symbolic time).",
'C20':"Exactness on all the polynomials of the degree for which each formula must be exact, with symbolic coefficients; continuity of derivatives at the bounds for Newhall.",
'C21':"Step functions on machine numbers with a symbolic place of the sign change; the result is adjacent to it. Quadratic equations: the roots returned are zeros, and all of them.",
'C22':"Pointwise comparison at a symbolic time of every operation with the operation on the values; inner products against closed forms of the integrals; caches of the Fourier transform by histories.",
'C23':"The definition of the discrete Fourier transform, and Parseval's for the power spectrum, for symbolic samples.",
'C30':"Definitions in coordinates, universal identities (Jacobi, triple product), oriented angles.",
'C31':"The rotation is a direct isometry (Gram matrix, determinant), and sends the defining vectors where the parametrization says; the quaternion of a matrix gives back the matrix for all rotations (all branches).",
'C32':"Composition and inverse against application; the determinant against the action on trivectors; conversions agree with application; serialization.",
'C33':"Application of a composition is the composition of applications, inverses, similarity factor; serialization.",
'C34':"Coordinates; solutions of the system are multiplied back; eigenvalues sorted.",
'C35':"Weighted mean, invariance by order, reciprocals of inclusion, signs of all doubles in IEEE mode.",
'C36':"Projection by similar triangles; tan² of the angular distance; a point hidden is on a ray which meets the sphere before it (witness on the segment), etc.",
'C37':"Definitions in coordinates; Solve and QR multiply back.",
'C38':"Real and imaginary parts; (a/b) b = a; element-wise operations.",
'C40':"Points of the moving frame, differentiated: position, velocity, acceleration of any point through composition, inverse, and conversions.",
'C41':"Sums over the bodies of the definition of the mass, centre, momenta and inertia (parallel axes), in any frame and order.",
'C43':"Conic sections by their geometric definition; every way of specifying the elements; state vectors from anomalies (and back), Kepler's equation given a root finder that finds brackets.",
'C44':"A model (list of lists of points) is updated in parallel with each operation; all observers must agree with it; downsampling against a model with symbolic errors.",
'C45':"The trajectory read is compared with the one written, and both evolve identically afterwards; the lossy compressor adds symbolic errors within its accuracy.",
'C46':"Schedules: each operation is atomic; histories: against models (map of checkpoints, set of protections, multiset of clients).",
'C47':"The rotation matrix from the pole's right ascension and declination, element by element; coefficients of the geopotential after normalization; serialization.",
'C48':"The motion sends the bodies where the definition of the frame says; angular velocity, acceleration and inertial accelerations by differentiation of the motion, with the accelerations of an arbitrary ephemeris.",
'C49':"The potential as a sum of Legendre functions computed by the definition (derivatives of (x²-1)ⁿ), its gradient by symbolic differentiation; damping radii from the magnitudes.",
'C50':"Elementary differentials: the numerical solution of an equation that realizes each rooted tree agrees with the exact one up to the order declared, for all the methods.",
'C51':"The sequence of times and states against a model of the controller with symbolic outcomes; interruption, copy, serialization give the same following steps.",
'C52':"Newton's law summed over the pairs, in any order of the bodies, with an arbitrary (affine) perturbation for the harmonics; jerk and Jacobian by differentiation.",
'C53':"A stand-in integrator records the problem, parameters and statuses; the ephemeris must prolong, flow and report as specified.",
'C54':"A stand-in approximation (its degree and error are symbolic) records what it is given; a model of the degrees, tolerance and age.",
'C60':"The grammar of the formats, the counts of leap years; see the assumptions.",
'C61':"The history of the IERS written independently in the harness; interpolation between the entries of the tables.",
    'C71': 'Transitive closure of the contacts; sums over the parts written independently in the harness; conservation of momentum and angular momentum; the points given by the (replaced) integrations',
    'C70': 'Tsiolkovsky\'s equation, stated by its exponential form; the definition of the acceleration in the Frenet frame; the coordinates given',
}
props={}
order=[]
for b in re.split(r'\n\s*\n', open('/verif/tools/props.txt',encoding='utf-8').read()):
    d={}
    for l in b.strip().split('\n'):
        if ':' in l and not l.startswith('#'):
            k,v=l.split(':',1); d.setdefault(k.strip(),[]).append(v.strip())
    if 'id' in d: order.append((d['id'][0],d))
out=head
nas=''
for i,d in order:
    if 'na' in d:
        nas+=f"* **{i} {d['title'][0]}**: {d['na'][0]}\n"; continue
    hs=sorted(glob.glob(f'/verif/harness/{i}_*.cc'))
    out+=f"### {i} {d['title'][0]}\n\nCode: {', '.join('`'+f+'`' for f in d['files'][0].split())}.\n{O.get(i,'')}\n"
    for h in hs:
        s=open(h,encoding='utf-8').read()
        es=re.findall(r'^//@ entry (\S+)(.*)$',s,re.M)
        real=any('mode=real' in e[1] for e in es)
        b=' '.join(re.findall(r'^//@ bound (.*)$',s,re.M)); a=' '.join(re.findall(r'^//@ assume (.*)$',s,re.M))
        out+=f"* `{h.split('/')[-1]}`: {', '.join(e[0] for e in es)}. *Bounds*: {b}"+(f" *Assumptions*: {a}" if a else '')+'\n'
    out+='\n'
out+="## 3. Not applicable\n\n"+(nas or 'None yet.\n')+"\n"
out+=open('/verif/tools/design_tail.md',encoding='utf-8').read()
open('/verif/DESIGN.md','w',encoding='utf-8').write(out)
