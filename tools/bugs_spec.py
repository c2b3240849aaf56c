"""planted bugs: each breaks one property, compiles, passes the existing tests (see plant.py)"""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, also=()):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also)))


# ---------------------------------------------------------------------------------------- C01-C04
bug("isen-lowspeed-series", "C01", [("aero/Isentropic.py",
    "    return np.sqrt((PtPs ** ((gamma - 1.0) / gamma) - 1.0) * 2.0 / (gamma - 1.0))",
    "    excess = PtPs - 1.0\n    # incompressible limit avoids cancellation for very small Mach numbers\n"
    "    exact = np.sqrt((PtPs ** ((gamma - 1.0) / gamma) - 1.0) * 2.0 / (gamma - 1.0))\n"
    "    return np.where(excess < 2e-3, np.sqrt(2.0 * np.abs(excess) / gamma), exact)[()]")],
    "a total to static pressure ratio below 1.002 (Mach < 0.05)",
    "Mach number from the pressure ratio is not the one the ratio was computed from (incompressible formula at low speed)",
    """
import aerokit.aero.Isentropic as Is
for M in (0.01, 0.02, 0.04, 0.3):
    m = float(Is.Mach_PtPs(Is.PtPs_Mach(M)))
    assert abs(m/M - 1) < 1e-6, (M, m)
""")
bug("isen-velocity-gamma", "C01", [("aero/Isentropic.py",
    "    return Mach * np.sqrt(gamma * r * Tt / TtTs_Mach(Mach, gamma))", "    return Mach * np.sqrt(gamma * r * Tt / TtTs_Mach(Mach))")],
    "gamma different from 1.4 in Velocity_MachTt",
    "velocity does not carry the kinetic energy between total and static temperature",
    """
import aerokit.aero.Isentropic as Is
g, r, Tt, M = 1.3, 300., 1500., 2.
cp = g*r/(g-1)
v = Is.Velocity_MachTt(M, Tt, r, g)
assert abs(0.5*v*v - cp*(Tt - Tt/Is.TtTs_Mach(M, g))) < 1e-6*cp*Tt, v
""")
bug("isen-ratio-overflow-clip", "C01", [("aero/Isentropic.py",
    "    return (1.0 + 0.5 * (gamma - 1.0) * Mach ** 2) ** (gamma / (gamma - 1.0))",
    "    return TtTs_Mach(Mach, gamma) ** np.minimum(gamma / (gamma - 1.0), 10.0)")],
    "gamma below 1.111 (exponent larger than 10)",
    "pressure ratio is not Tt/Ts to the power g/(g-1) for heavy gases",
    """
import math
import aerokit.aero.Isentropic as Is
for g in (1.4, 1.2, 1.1, 1.07):
    t = 1+.5*(g-1)*2.5**2
    assert abs(float(Is.PtPs_Mach(2.5, g))/math.exp(g/(g-1)*math.log(t)) - 1) < 1e-9, g
""")
bug("weight-gamma-root", "C02", [("aero/MassFlow.py", "        np.sqrt(gamma)\n", "        np.sqrt(defg.gamma())\n")],
    "explicit gamma different from the default one in WeightMassFlow",
    "dimensionless mass flow is not rho u sqrt(r Tt)/Pt (only its constant factor is wrong: ratios between two Mach numbers stay right)",
    """
import aerokit.aero.MassFlow as mf, aerokit.aero.Isentropic as Is
g, M = 1.25, 1.7
ref = g**.5*M*Is.TtTs_Mach(M, g)**.5/Is.PtPs_Mach(M, g)
assert abs(mf.WeightMassFlow(M, gamma=g)/ref-1) < 1e-9
""")
bug("sigma-sonic-plateau", "C02", [("aero/MassFlow.py",
    "    return (2.0 / (gamma + 1.0) * (1.0 + 0.5 * (gamma - 1) * Mach ** 2)) ** (\n        0.5 * (gamma + 1.0) / (gamma - 1.0)\n    ) / Mach",
    "    sigma = (2.0 / (gamma + 1.0) * (1.0 + 0.5 * (gamma - 1) * Mach ** 2)) ** (\n        0.5 * (gamma + 1.0) / (gamma - 1.0)\n    ) / Mach\n"
    "    return np.where(np.abs(np.asarray(Mach) - 1.0) < 1e-3, 1.0, sigma)[()]")],
    "a Mach number within 1e-3 of 1",
    "area ratio is 1 on an interval around Mach 1 instead of at Mach 1 only; it no longer equals weight(1)/weight(M)",
    """
import aerokit.aero.MassFlow as mf
for g in (1.4, 1.2):
    for M in (0.9995, 1.0004):
        s = float(mf.Sigma_Mach(M, gamma=g)); w = float(mf.WeightMassFlow(1., gamma=g)/mf.WeightMassFlow(M, gamma=g))
        assert abs(s-w) < 1e-12 and s > 1, (M, s, w)
""")
bug("pm-turn-gamma", "C04", [("aero/Supersonic.py",
    "    return Is.PtPs_Mach(Mach, gamma) / Is.PtPs_Mach(m2, gamma)", "    return Is.PtPs_Mach(Mach, gamma) / Is.PtPs_Mach(m2)")],
    "gamma different from 1.4", "pressure ratio of an isentropic turning is not that of an isentropic flow between both Mach numbers",
    """
import aerokit.aero.Supersonic as sup
for g in (1.4, 1.3):
    d = -5.
    pr = sup.IsentropicPsratio_Mach_deflection(2., d, g)
    back = sup.deflection_Mach_IsentropicPsratio(2., pr, g)
    assert abs(back + d) < 1e-5, (g, back)
""")
bug("pm-low-super", "C04", [("aero/Supersonic.py", "    beta = np.sqrt(Mach ** 2 - 1.0)\n", "    beta = np.sqrt(np.square(Mach) - 1.0 + 1e-9)\n")],
    "Mach number within 1e-4 of 1 (elsewhere the change is below round-off of usual tolerances)",
    "Prandtl-Meyer angle is not 0 at M=1 and its derivative is wrong there",
    """
import aerokit.aero.Supersonic as sup
assert abs(sup.PrandtlMeyer_Mach(1.)) < 1e-12
M = 1+1e-7
g = 1.4
import math
e = M*M-1
ref = math.degrees(2*e**1.5/(3*(g+1)))
assert abs(sup.PrandtlMeyer_Mach(M)/ref-1) < 1e-3
""")
# ---------------------------------------------------------------------------------------- C05-C09
bug("shock-density-limit", "C05", [("aero/ShockWave.py",
    "    return ((gamma + 1.0) * Mn ** 2) / (2.0 + (gamma - 1.0) * Mn ** 2)",
    "    return np.minimum(((gamma + 1.0) * Mn ** 2) / (2.0 + (gamma - 1.0) * Mn ** 2), 6.0)")],
    "gamma below 1.4 and a strong shock (density ratio above 6)",
    "density ratio limited to the value of air: mass and momentum are not conserved",
    """
import aerokit.aero.ShockWave as sw
for Mn, g in ((8., 1.4), (3., 1.2), (8., 1.2)):
    R, P = float(sw.Rho_ratio(Mn, g)), float(sw.Ps_ratio(Mn, g))
    # momentum p + rho u^2 in upstream units (p=1, rho=g, a=1)
    assert abs(1 + g*Mn**2 - (P + g*Mn**2/R)) < 1e-9*(1+g*Mn**2), (Mn, g)
""", also=["C06", "C13"])
bug("oblique-downstream-gamma", "C06", [("aero/ShockWave.py", "    Mn1 = downstream_Mn(Mn0, gamma)\n", "    Mn1 = downstream_Mn(Mn0)\n")],
    "gamma different from 1.4", "downstream Mach number given the pressure ratio is not that of the same jump",
    """
import aerokit.aero.ShockWave as sw, aerokit.aero.degree as deg
for g in (1.4, 1.25):
    M, sig = 3., 40.
    Mn = M*deg.sin(sig); P = sw.Ps_ratio(Mn, g)
    d = sw.deflection_Mach_sigma(M, sig, g)
    ref = sw.downstream_Mn(Mn, g)/deg.sin(sig-d)
    assert abs(float(sw.downstreamMach_Mach_ShockPsratio(M, P, g))-ref) < 1e-9
""")
bug("oblique-small-deflection", "C06", [("aero/ShockWave.py",
    "    return sigma - np.degrees(np.arctan2(np.tan(sigrad), Rho_ratio(Mn, gamma)))",
    "    return np.maximum(sigma - np.degrees(np.arctan(np.tan(sigrad) / Rho_ratio(Mn, gamma))), 1e-3)")],
    "shock angle very close to the Mach angle or to 90 degrees",
    "deflection does not vanish at both ends of the range (limited to 1e-3 degree)",
    """
import aerokit.aero.ShockWave as sw, aerokit.aero.degree as deg
for M in (1.5, 3.):
    assert abs(float(sw.deflection_Mach_sigma(M, 90.))) < 1e-6
    assert abs(float(sw.deflection_Mach_sigma(M, deg.asin(1/M)))) < 1e-6
""")
bug("weak-nosol-angle", "C07", [("aero/ShockWave.py",
    '        print("no weak shock wave solution")\n        return degree.asin(1.0 / Mach)', '        print("no weak shock wave solution")\n        return sigma_DevMax(Mach, gamma)')],
    "deflection above the maximum", "weak solver returns the angle of maximum deflection instead of the Mach angle when no attached shock exists",
    """
import aerokit.aero.ShockWave as sw, aerokit.aero.degree as deg
assert abs(sw.weaksigma_Mach_deflection(2., 40.)-deg.asin(.5)) < 1e-9
""")
bug("strong-cubic-gamma", "C07", [("aero/ShockWave.py",
    '    if ke ** 2 - 4.0 * kd ** 3 > 0:\n        print("no strong shock wave solution")', '    if ke ** 2 > 3.999 * kd ** 3:\n        print("no strong shock wave solution")')],
    "an attached deflection just below the maximum one",
    "strong solver says that no attached shock exists although the deflection is below the maximum",
    """
import aerokit.aero.ShockWave as sw
for M, g in ((2., 1.4), (3., 1.3)):
    d = float(sw.dev_Max(M, g))*(1-1e-5)
    s = float(sw.strongsigma_Mach_deflection(M, d, g))
    assert abs(float(sw.deflection_Mach_sigma(M, s, g))-d) < 1e-6, (s, d)
""")
bug("iter-sigma-gamma", "C07", [("aero/ShockWave.py", "        return deflection_Mach_sigma(Mach, sig, gamma)\n\n    return ITS.secant_solve(local_f",
    "        return deflection_Mach_sigma(Mach, sig)\n\n    return ITS.secant_solve(local_f")],
    "gamma different from 1.4", "iterative shock angle solves the deflection law of another gas",
    """
import aerokit.aero.ShockWave as sw
for g in (1.4, 1.3):
    s = float(sw.sigma_Mach_deflection(2.5, 10., gamma=g))
    assert abs(float(sw.deflection_Mach_sigma(2.5, s, g))-10.) < 1e-4
""")
bug("iter-sigma-sign", "C07", [("aero/ShockWave.py",
    "    return ITS.secant_solve(local_f, np.abs(deflection), sig0) * np.sign(deflection)",
    "    return ITS.secant_solve(local_f, np.abs(deflection), sig0) * np.sign(np.max(deflection))")],
    "an array of deflections with both signs", "result does not change sign with each deflection of an array",
    """
import numpy as np
import aerokit.aero.ShockWave as sw
s = sw.sigma_Mach_deflection(2.5, np.array([-5., 8.]))
assert s[0] < 0 < s[1], s
s = sw.sigma_Mach_deflection(2.5, np.array([-5., -8.]))
assert np.all(s < 0), s
""", also=["C21"])
bug("devmax-gamma", "C08", [("aero/ShockWave.py",
    "    return deflection_Mach_sigma(Mach, sigma_DevMax(Mach, gamma=gamma), gamma=gamma)",
    "    return deflection_Mach_sigma(Mach, sigma_DevMax(Mach), gamma=gamma)")],
    "gamma different from 1.4 (the error on the maximum is of second order)",
    "reported maximum deflection is not the maximum: other shock angles give larger deflections",
    """
import numpy as np
import aerokit.aero.ShockWave as sw
for g in (1.4, 1.2):
    for M in (1.5, 4.):
        d = sw.deflection_Mach_sigma(M, np.linspace(np.degrees(np.arcsin(1/M)), 90., 20001), g)
        assert d.max() <= sw.dev_Max(M, g)+1e-9
""")
bug("sonic-angle-transonic", "C08", [("aero/ShockWave.py",
    "    kb = (gamma + 1) * (np.square(M2 - 3) + gamma * np.square(M2 + 1))",
    "    kb = (gamma + 1) * (np.square(np.maximum(M2 - 3, 0.0)) + gamma * np.square(M2 + 1) + np.square(np.minimum(M2 - 3, 0.0)) * (M2 > 1.1))")],
    "upstream Mach number between 1 and 1.049", "reported sonic shock angle does not give a sonic downstream flow for transonic Mach numbers",
    """
import aerokit.aero.ShockWave as sw, aerokit.aero.degree as deg
for M in (1.02, 1.04, 1.5, 3.):
    s = float(sw.sigma_Sonic(M)); d = float(sw.deflection_Mach_sigma(M, s))
    assert abs(float(sw.downstream_Mn(M*deg.sin(s)))/deg.sin(s-d)-1) < 1e-9, M
""")
bug("devsonic-gamma", "C08", [("aero/ShockWave.py",
    "    return deflection_Mach_sigma(Mach, sigma_Sonic(Mach, gamma=gamma), gamma=gamma)",
    "    return deflection_Mach_sigma(Mach, sigma_Sonic(Mach, gamma=gamma))")],
    "gamma different from 1.4", "deviation at the sonic point is that of another gas",
    """
import aerokit.aero.ShockWave as sw
for g in (1.4, 1.25):
    assert abs(float(sw.dev_Sonic(2.5, g)) - float(sw.deflection_Mach_sigma(2.5, sw.sigma_Sonic(2.5, g), g))) < 1e-9
""")
bug("conical-ode-gamma", "C09", [("aero/ShockWave.py",
    "            * (1.0 + 0.5 * (gamma - 1) * ma * ma)\n", "            * (1.0 + 0.2 * ma * ma)\n")],
    "gamma different from 1.4", "Mach number behind a conical shock does not follow the Taylor-Maccoll flow",
    """
import numpy as np
from scipy.integrate import solve_ivp
import aerokit.aero.ShockWave as sw
def cone(M, s, g):
    d = np.radians(float(sw.deflection_Mach_sigma(M, s, g))); sr = np.radians(s)
    m2 = float(sw.downstream_Mn(M*np.sin(sr), g))/np.sin(sr-d)
    v = (1+2/((g-1)*m2**2))**-.5
    def f(t, y):
        vr, vt = y; a2 = .5*(g-1)*(1-vr*vr-vt*vt)
        return [vt, (vt*vt*vr - a2*(2*vr+vt/np.tan(t)))/(a2-vt*vt)]
    ev = lambda t, y: y[1]
    ev.terminal = True
    r = solve_ivp(f, (sr, 1e-3), [v*np.cos(sr-d), -v*np.sin(sr-d)], events=ev, rtol=1e-10, atol=1e-12)
    return np.degrees(r.t_events[0][0])
for g in (1.4, 1.2):
    assert abs(sw.conical_deflection_Mach_sigma(3., 35., g)-cone(3., 35., g)) < 1e-4
""")
bug("conical-phi-increment", "C09", [("aero/ShockWave.py", "        rhs[0] = -degree.sin(th) * degree.cos(phi - th) / degree.sin(phi) / k\n",
    "        rhs[0] = -degree.sin(th) * np.abs(degree.cos(phi - th)) / degree.sin(max(phi, 12.0)) / k\n")],
    "a slender cone: the ray angle gets below 12 degrees during integration",
    "flow angle behind the shock of a slender cone does not follow the Taylor-Maccoll flow",
    """
import numpy as np
import aerokit.aero.ShockWave as sw
# Mach 8, shock 10 deg: reference cone angle from an independent integration
from scipy.integrate import solve_ivp
def cone(M, s, g):
    d = np.radians(float(sw.deflection_Mach_sigma(M, s, g))); sr = np.radians(s)
    m2 = float(sw.downstream_Mn(M*np.sin(sr), g))/np.sin(sr-d)
    v = (1+2/((g-1)*m2**2))**-.5
    def f(t, y):
        vr, vt = y; a2 = .5*(g-1)*(1-vr*vr-vt*vt)
        return [vt, (vt*vt*vr - a2*(2*vr+vt/np.tan(t)))/(a2-vt*vt)]
    ev = lambda t, y: y[1]
    ev.terminal = True
    r = solve_ivp(f, (sr, 1e-3), [v*np.cos(sr-d), -v*np.sin(sr-d)], events=ev, rtol=1e-10, atol=1e-12)
    return np.degrees(r.t_events[0][0])
for M, s in ((8., 10.), (3., 35.)):
    assert abs(sw.conical_deflection_Mach_sigma(M, s)-cone(M, s, 1.4)) < 1e-4
""")
# ---------------------------------------------------------------------------------------- C10-C11
bug("fanno-pt-integer-exponent", "C10", [("aero/Fanno.py",
    "        * (2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach))) ** ((gamma + 1) / 2 / (gamma - 1))\n",
    "        * (2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach))) ** np.round((gamma + 1) / 2 / (gamma - 1), 2)\n")],
    "gamma for which (g+1)/2/(g-1) has more than 2 decimals, e.g. 1.3 (1.4 and 1.25 give exact values)",
    "total pressure ratio is not that of the same state",
    """
import aerokit.aero.Fanno as f, aerokit.aero.Isentropic as Is
for g in (1.4, 1.3, 1.67):
    for M in (.3, 3.):
        ref = f.Ps_Pscri(M, g)*Is.PtPs_Mach(M, g)/Is.PtPs_Mach(1., g)
        assert abs(f.Pi_Picri(M, g)/ref-1) < 1e-9
""")
bug("rayleigh-tt-gamma", "C11", [("aero/Rayleigh.py",
    "    return 2 * (gamma + 1) * m2 / np.square(1 + gamma * m2) * (1 + (gamma - 1) / 2 * m2)",
    "    return (gamma + 1) * m2 / np.square(1 + gamma * m2) * (2 + np.minimum(gamma - 1, 0.6) * m2)")],
    "gamma above 1.6 (monatomic gases)", "total temperature ratio is not that of the same state for monatomic gases",
    """
import aerokit.aero.Rayleigh as r
for g in (1.4, 5/3):
    assert abs(r.Ti_Ticri(1., g)-1) < 1e-12
    for M in (.5, 2.):
        ref = r.Ts_Tscri(M, g)*(1+.5*(g-1)*M*M)/(1+.5*(g-1))
        assert abs(r.Ti_Ticri(M, g)/ref-1) < 1e-12
""")
bug("rayleigh-entropy", "C11", [("aero/Rayleigh.py",
    "    return np.log(m2 * ((gamma + 1) / (1 + gamma * m2)) ** ((gamma + 1) / gamma))",
    "    return -np.abs(np.log(m2 * ((gamma + 1) / (1 + gamma * m2)) ** (1 + 1 / max(gamma, 1.3))))")],
    "gamma below 1.3", "entropy is not that of the same state for polyatomic gases",
    """
import numpy as np
import aerokit.aero.Rayleigh as r
for g in (1.4, 1.15):
    for M in (.4, 2.):
        ref = np.log(r.Ts_Tscri(M, g)) - (g-1)/g*np.log(r.Ps_Pscri(M, g))
        assert abs(r.NormdS(M, g)-ref) < 1e-9
""")
# ---------------------------------------------------------------------------------------- C12-C17
bug("state-rh-negative", "C12", [("aero/model1D.py",
    "        M = self.Mach()\n        R = sw.Rho_ratio(M, self._gamma)\n", "        M = np.maximum(self.Mach(), 0.0)\n        R = sw.Rho_ratio(M, self._gamma)\n")],
    "a state with negative velocity", "Rankine-Hugoniot transform of a leftward supersonic flow does not conserve fluxes",
    """
from aerokit.aero.model1D import state
for u in (3., -3.):
    q = state(1.4, u, 1., 1.4); r = q.state_RH()
    assert abs(r.rho*r.u-q.rho*q.u) < 1e-9 and abs(r.p+r.rho*r.u**2-q.p-q.rho*q.u**2) < 1e-9, u
""")
bug("state-symmetric-gamma", "C13", [("aero/unsteady1D.py",
    "        return unsteady_state(self.rho, -self.u, self.p, self._gamma)", "        return unsteady_state(self.rho, -self.u, self.p)")],
    "gamma different from 1.4", "the mirrored state forgets its gas",
    """
from aerokit.aero.unsteady1D import unsteady_state as S
for g in (1.4, 1.3):
    q = S(1., 50., 1e5, g); m = q.copysymmetric()
    assert m._gamma == g and m.u == -50. and abs(m.delta_u_shock(2e5)-q.delta_u_shock(2e5)) < 1e-9
""", also=["C16", "C12"])
bug("wave-rhoshock-limit", "C13", [("aero/unsteady1D.py",
    "        return self.rho * (pratio + gmusgpu) / (1.0 + gmusgpu * pratio)", "        return self.rho * (pratio + gmusgpu) / (1.0 + gmusgpu * np.minimum(pratio, 500.0))")],
    "a very strong shock (pressure ratio above 500)", "density behind very strong shocks does not satisfy the jump relations",
    """
from aerokit.aero.unsteady1D import unsteady_state as S
q = S(1., 0., 1., 1.4)
for p in (10., 1e3, 1e5):
    r = q.rho_through_shock(p); du = q.delta_u_shock(p)
    # mass flux through shock j: du = j(1/r0-1/r1), p1-p0 = j du
    assert abs((p-1)*(1-1/r)-du**2) < 1e-9*du**2, p
""", also=["C14"])
bug("wave-shock-sign", "C13", [("aero/unsteady1D.py",
    "        loc_Mn = (self.u - ushock) / self.asound()  # this Mach number is signed\n        rho_ratio = sw.Rho_ratio(loc_Mn, self._gamma)\n",
    "        loc_Mn = (self.u - ushock) / self.asound()  # this Mach number is signed\n        rho_ratio = sw.Rho_ratio(max(loc_Mn, -10.0), self._gamma)\n")],
    "a right-running shock with a Mach number above 10", "jump for a given shock velocity does not satisfy Rankine-Hugoniot relations for fast right-running shocks",
    """
from aerokit.aero.unsteady1D import unsteady_state as S
q = S(1.4, 0., 1., 1.4)
for w in (-2., 2., -15., 15.):
    r = q._rankinehugoniot_from_ushock(w)
    assert abs(r.rho*(r.u-w)-q.rho*(q.u-w)) < 1e-9*abs(q.rho*w)
    assert abs(r.p+r.rho*(r.u-w)**2-q.p-q.rho*(q.u-w)**2) < 1e-9*q.rho*w*w, w
""")
bug("riemann-weak-shock-isentropic", "C14", [("instance/riemann.py",
    "        if self._pstar > self._qR.p:\n            _rho = self._qR.rho_through_shock(self._pstar)\n",
    "        if self._pstar > self._qR.p * 1.02:\n            _rho = self._qR.rho_through_shock(self._pstar)\n")],
    "a right-running shock whose pressure jump is below 2 %", "a weak right shock is treated as an isentropic compression fan whose head is slower than its tail",
    """
import aerokit.instance.riemann as riem
from aerokit.aero.unsteady1D import unsteady_state as S
pb = riem.riemann_pb(S(1., 0., 1.02, 1.4), S(1., 0., 1., 1.4))
assert pb.pstar() > 1.
assert pb._waves[3] <= pb._waves[4] + 1e-12
assert abs(pb.qstarR().rho - S(1., 0., 1., 1.4).rho_through_shock(pb.pstar())) < 1e-12
""", also=["C15", "C16"])
bug("riemann-tail-gamma", "C14", [("instance/riemann.py",
    "            self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)\n            self._waves[3] = self._ustar + self._qstarR.asound()\n",
    "            self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qL._gamma)\n            self._waves[3] = self._ustar + self._qstarR.asound()\n")],
    "two gases and an expansion in the right one", "tail of the right expansion moves at the sound speed of the other gas",
    """
import numpy as np
import aerokit.instance.riemann as riem
from aerokit.aero.unsteady1D import unsteady_state as S
pb = riem.riemann_pb(S(1., 0., 1., 1.3), S(1., 0., 10., 1.6))
q = pb.qstarR()
assert q._gamma == 1.6 and abs(pb._waves[3]-(pb.ustar()+np.sqrt(1.6*q.p/q.rho))) < 1e-9
""", also=["C15"])
bug("riemann-vacuum-expansion-left", "C14", [("instance/riemann.py",
    "            self._waves[1] = self._ustar - self._qstarL.asound()\n", "            self._waves[1] = self._ustar - self._qstarL.asound() if self._pstar > 1e-2 * self._qL.p else self._ustar\n")],
    "a left expansion with a star pressure below 1 % of the left pressure", "tail of a strong left expansion does not move at the local acoustic speed",
    """
import numpy as np
import aerokit.instance.riemann as riem
from aerokit.aero.unsteady1D import unsteady_state as S
for pr in (.1, .001, 1e-5):
    pb = riem.riemann_pb(S(1., 0., 1., 1.4), S(pr, 0., pr, 1.4)); q = pb.qstarL()
    assert abs(pb._waves[1]-(q.u-np.sqrt(1.4*q.p/q.rho))) < 1e-9
pb = riem.riemann_pb(S(1., 0., 1., 1.4), S(1e-5, 3., 1e-5, 1.4)); q = pb.qstarL()
assert abs(pb._waves[1]-(q.u-np.sqrt(1.4*q.p/q.rho))) < 1e-9
""", also=["C15"])
bug("riemann-fan-gamma", "C15", [("instance/riemann.py",
    "            gam = self._qR._gamma\n            gp1 = gam + 1.0\n            gm1 = gam - 1.0\n            u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))\n",
    "            gam = 0.5 * (self._qL._gamma + self._qR._gamma)\n            gp1 = gam + 1.0\n            gm1 = gam - 1.0\n            u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))\n")],
    "two different gases and an expansion on the right", "state inside the right expansion is not that of its gas",
    """
import numpy as np
import aerokit.instance.riemann as riem
from aerokit.aero.unsteady1D import unsteady_state as S
for gl in (1.6, 1.3):
    R = S(1., 0., 10., 1.6)
    pb = riem.riemann_pb(S(1., 0., 1., gl), R)
    x = np.linspace(pb._waves[3]*1.0001, pb._waves[4]*.9999, 7)
    q = pb.qsol(x)
    a = np.sqrt(1.6*q.p/q.rho)
    assert np.allclose(q.u+a, x, rtol=1e-9) and np.allclose(q.p/q.rho**1.6, 10.)
""")
bug("riemann-sample-contact", "C15", [("instance/riemann.py",
    "        i = np.logical_and((xot >= self._waves[1]), (xot < self._waves[2]))\n", "        i = np.logical_and((xot >= self._waves[1]), (xot < max(self._waves[2], 0.0)))\n"),
    ("instance/riemann.py", "        i = np.logical_and((xot >= self._waves[2]), (xot < self._waves[3]))\n", "        i = np.logical_and((xot >= max(self._waves[2], 0.0)), (xot < self._waves[3]))\n")],
    "a contact moving to the left (negative star velocity)", "between the contact and x=0 the sampled solution is the left star state",
    """
import numpy as np
import aerokit.instance.riemann as riem
from aerokit.aero.unsteady1D import unsteady_state as S
pb = riem.riemann_pb(S(.125, 0., .1, 1.4), S(1., 0., 1., 1.4))
q = pb.qsol(np.array([.5*pb.ustar()]))
assert abs(q.rho[0]-pb.qstarR().rho) < 1e-12
""")
bug("riemann-fan-reverse", "C15", [("instance/riemann.py",
    "            p[i] = self._qL.p * ((u[i] - xot[i]) / self._qL.asound()) ** (2.0 * gam / gm1)\n",
    "            p[i] = np.maximum(self._qL.p * ((u[i] - xot[i]) / self._qL.asound()) ** (2.0 * gam / gm1), 1.0e-3)\n")],
    "a left expansion reaching pressures below 1e-3 (units of the user)", "pressure inside a left expansion is limited from below: entropy is not conserved, scaling is lost",
    """
import numpy as np
import aerokit.instance.riemann as riem
from aerokit.aero.unsteady1D import unsteady_state as S
for scale in (1., 1e-4):
    pb = riem.riemann_pb(S(1., 0., scale, 1.4), S(.1, 0., .05*scale, 1.4))
    x = np.linspace(pb._waves[0], pb._waves[1], 7)[1:-1]
    q = pb.qsol(x)
    assert np.allclose(q.p/q.rho**1.4, scale, rtol=1e-9)
    assert np.allclose(q.u-np.sqrt(1.4*q.p/q.rho), x)
""", also=["C16"])
bug("riemann-galilean-fan", "C16", [("instance/riemann.py",
    "            u[i] = gm1 / gp1 * (self._qL.u + 2.0 / gm1 * (self._qL.asound() + xot[i]))\n",
    "            u[i] = gm1 / gp1 * (max(self._qL.u, 0.0) + 2.0 / gm1 * (self._qL.asound() + xot[i]))\n")],
    "a left expansion with a negative left velocity", "adding a velocity to both states does not add it to the velocities inside a left expansion",
    """
import numpy as np
import aerokit.instance.riemann as riem
from aerokit.aero.unsteady1D import unsteady_state as S
def sol(w):
    pb = riem.riemann_pb(S(1., w, 1., 1.4), S(.125, w, .1, 1.4))
    x = np.linspace(pb._waves[0]+1e-6, pb._waves[1]-1e-6, 9)
    return pb.qsol(x).u - w
assert np.allclose(sol(0.), sol(.3)) and np.allclose(sol(0.), sol(-.3))
""", also=["C15"])
bug("riemann-scale-right", "C16", [("instance/riemann.py",
    "        return 0.5 * (self._qR.u + self._qL.u + self._delta_uR(p) - self._delta_uL(p))",
    "        return self._qR.u + self._delta_uR(max(p, 1e-6))")],
    "very small pressures in the units of the user (below 1e-6)", "scaling the pressure unit does not scale the star velocity",
    """
import aerokit.instance.riemann as riem
from aerokit.aero.unsteady1D import unsteady_state as S
def us(k):
    return riem.riemann_pb(S(1., 0., k, 1.4), S(.125, 0., .1*k, 1.4)).ustar()/k**.5
for k in (1., 1e3, 1e-8):
    assert abs(us(k)/us(1.)-1) < 1e-8, k
""", also=["C14"])
bug("inflow-alias", "C17", [("instance/unsteady_inflow.py",
    "        self._qstarL = self._qR.copy()\n", "        self._qstarL = self._qR\n")],
    "two successive solves of the same problem (or reading the initial state after a solve)",
    "the first solve overwrites the initial state: a second solve differs from a fresh problem",
    """
import aerokit.instance.unsteady_inflow as inf
from aerokit.aero.unsteady1D import unsteady_state as S
q = S(1.2, 20., 1e5, 1.4)
a = inf.inflow_pb(q); a.solve_with_pt0_rtt0(1.5e5, 9e4); a.solve_with_pt0_rtt0(1.2e5, 9e4)
b = inf.inflow_pb(S(1.2, 20., 1e5, 1.4)); b.solve_with_pt0_rtt0(1.2e5, 9e4)
assert abs(a.pstar()/b.pstar()-1) < 1e-9 and abs(a.ustar()/b.ustar()-1) < 1e-9
""")
bug("inflow-expansion-density", "C17", [("instance/unsteady_inflow.py",
    "            _rho = self._qR.rho_through_isentropic(self._pstar)\n            self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)\n",
    "            _rho = self._qR.rho_through_isentropic(self._pstar)\n            self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar)\n")],
    "gamma different from 1.4 and reservoir pressure giving an expansion", "the state behind the right expansion forgets its gas (tail speed is wrong)",
    """
import numpy as np
import aerokit.instance.unsteady_inflow as inf
from aerokit.aero.unsteady1D import unsteady_state as S
for g in (1.4, 1.2):
    a = inf.inflow_pb(S(1.2, 100., 1e5, g)); a.solve_with_pt0_rtt0(.99e5, 9e4)
    assert a.pstar() < 1e5
    q = a.qstarR()
    assert q._gamma == g and abs(a._waves[3]-(a.ustar()+np.sqrt(g*q.p/q.rho))) < 1e-6
""")
bug("inflow-delta-compress", "C17", [("instance/unsteady_inflow.py",
    "        if p > self._qR.p:\n            _delta = self._qR.delta_u_shock(p)\n", "        if p > 1.5 * self._qR.p:\n            _delta = self._qR.delta_u_shock(p)\n")],
    "a reservoir giving a moderate compression (pressure ratio below 1.5)", "moderate right-running shocks are replaced by isentropic compressions",
    """
import aerokit.instance.unsteady_inflow as inf
from aerokit.aero.unsteady1D import unsteady_state as S
for pt in (1.3e5, 3e5):
    q = S(1.2, 20., 1e5, 1.4)
    a = inf.inflow_pb(q); a.solve_with_pt0_rtt0(pt, 9e4)
    assert a.pstar() > 1e5
    assert abs(a.ustar()-20.-q.delta_u_shock(a.pstar())) < 1e-5*abs(a.ustar()), pt
""")

# ---------------------------------------------------------------------------------------- second attempts
bug("shock-weak-ptinverse", "C05", [("aero/ShockWave.py", "    if ptratio > 1:\n", "    if ptratio > 0.9999:\n")],
    "a weak shock: total pressure ratio above 0.9999 (normal Mach number below 1.045)",
    "inverse of the total pressure ratio answers 1 for weak shocks",
    """
import aerokit.aero.ShockWave as sw
for Mn in (1.03, 1.2, 2.):
    m = float(sw.Mn_Pt_ratio(sw.Pt_ratio(Mn)))
    assert abs(m-Mn) < 1e-3, (Mn, m)
""")
bug("shock-psinv-gamma", "C05", [("aero/ShockWave.py",
    "    return np.sqrt(1 + (Pratio - 1.0) * (gamma + 1.0) / (2.0 * gamma))",
    "    return np.sqrt(1 + (Pratio - 1.0) * (1.0 / gamma + 1.0 if np.ndim(gamma) else min(0.5 + 0.5 / gamma, 0.9)))")],
    "gamma below 1.25", "inverse of the pressure ratio is not the Mach number it came from for gases of low gamma",
    """
import aerokit.aero.ShockWave as sw
for g in (1.4, 1.15):
    for Mn in (1.0, 1.1, 3.):
        assert abs(sw.Mn_Ps_ratio(sw.Ps_ratio(Mn, g), g) - Mn) < 1e-9
""", also=["C06"])
bug("fanno-entropy-lowgamma", "C10", [("aero/Fanno.py",
    "        * (2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach))) ** (-(gamma + 1) / 2 / gamma)\n",
    "        * (2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(np.minimum(Mach, 6.0)))) ** (-(gamma + 1) / 2 / gamma)\n")],
    "Mach number above 6", "entropy function is not that of the same state for hypersonic flow",
    """
import numpy as np
import aerokit.aero.Fanno as f
for g in (1.4, 1.25):
    for M in (.5, 2., 8.):
        assert abs(f.NormdS(M, g) + (g-1)/g*np.log(f.Pi_Picri(M, g))) < 1e-9
""")
bug("fanno-param-nearsonic", "C10", [("aero/Fanno.py",
    "    return (1 - m2) / (gamma * m2) + (gamma + 1) / (2 * gamma) * np.log(\n        m2 * (gamma + 1) / 2 / (1 + (gamma - 1) / 2 * m2)\n    )",
    "    fparam = (1 - m2) / (gamma * m2) + (gamma + 1) / (2 * gamma) * np.log(\n        m2 * (gamma + 1) / 2 / (1 + (gamma - 1) / 2 * m2)\n    )\n"
    "    return np.where(fparam < 1e-6, 0.0, fparam)[()]")],
    "Mach number within 1e-3 of 1", "friction parameter is zero on an interval instead of at M=1 only",
    """
import aerokit.aero.Fanno as f
assert abs(f.maxFparam_Mach(1.)) < 1e-15
for M in (0.9997, 1.0003, .5, 2.):
    assert f.maxFparam_Mach(M) > 0
""")
bug("rayleigh-sub-alpha", "C11", [("aero/Rayleigh.py",
    "    return np.sqrt((1.0 - alpha) / (alpha * gamma + 1))", "    return np.sqrt(np.maximum(1.0 - alpha, 1e-3) / (alpha * gamma + 1))")],
    "a very low Mach number (below 0.02)", "subsonic inversion of the total temperature ratio saturates at low Mach number",
    """
import aerokit.aero.Rayleigh as r
for M in (.01, .2, .8):
    assert abs(r.SubMach_TiTicri(r.Ti_Ticri(M))/M-1) < 1e-6
""")
bug("state-acoustic-reverse", "C12", [("aero/model1D.py",
    '        """returns left \'actual\' speed of sound"""\n        return self.u - np.sqrt(self._gamma * self.p / self.rho)',
    '        """returns left \'actual\' speed of sound"""\n        return np.where(self.u < 0, -1, 1) * np.abs(self.u) - np.sqrt(np.maximum(self._gamma, 1.2) * self.p / self.rho)')],
    "gamma below 1.2", "left acoustic speed is not u-a",
    """
from aerokit.aero.model1D import state
for g in (1.4, 1.1):
    q = state(1.2, 30., 1e5, g)
    assert abs(q.left_acoustic()-(q.u-q.asound())) < 1e-9
""")
# ---------------------------------------------------------------------------------------- C18-C20
bug("nozzle-adapt-shock-gamma", "C18", [("instance/nozzle.py",
    "    elif NPR > NPRsw:  # shock wave in jet\n", "    elif NPR > 1.02 * NPRsw:  # shock wave in jet\n")],
    "a pressure ratio between that of a shock at exit and 2 % more", "adapted jet Mach number uses the internal-shock formula just above the shock-at-exit regime",
    """
import aerokit.instance.nozzle as nz, aerokit.aero.ShockWave as sw
for A in (1.5, 3.):
    N0, Ns, N1, Ms, Mh, Mp = nz._NPR_Ms_list(A)
    for k in (1.01, 1.2):
        N = k*Ns
        if N < N1:
            assert abs(float(nz.Madapt_from_AsAc_NPR(A, N))-float(sw.downstreamMach_Mach_ShockPsratio(Mp, N1/N))) < 1e-6
""")
bug("nozzle-regime-limit", "C18", [("instance/nozzle.py",
    "    if NPR < NPR0:\n        Ms = Is.Mach_PtPs(NPR)\n    elif NPR > NPRsw:\n        Ms = Msup\n",
    "    if NPR < NPR0:\n        Ms = Is.Mach_PtPs(NPR)\n    elif NPR > 0.5 * (NPRsw + NPR1) if AsAc < 1.05 else NPR > NPRsw:\n        Ms = Msup\n")],
    "an almost constant section nozzle (area ratio below 1.05) with a pressure ratio above shock at exit",
    "exit Mach number is the internal-shock one although the nozzle is supersonic",
    """
import aerokit.instance.nozzle as nz
for A in (1.02, 2.):
    N0, Ns, N1, Ms, Mh, Mp = nz._NPR_Ms_list(A)
    N = .6*Ns+.4*N1
    assert abs(float(nz.Ms_from_AsAc_NPR(A, N))-Mp) < 1e-9, A
""")
bug("nozzle-npr-shock-exit", "C18", [("instance/nozzle.py",
    "    Msup = mf.MachSup_Sigma(AsAc)\n    Msh = sw.downstream_Mn(Msup)\n    return Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)",
    "    Msup = np.minimum(mf.MachSup_Sigma(AsAc), 6.0)\n    Msh = sw.downstream_Mn(Msup)\n    return Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)")],
    "a very large area ratio (above 53)", "limiting pressure ratio of a shock at exit is not that of a normal shock at the exit Mach number",
    """
import aerokit.instance.nozzle as nz
for A in (2., 100.):
    assert abs(float(nz.NPR_shock_at_exit(A))/float(nz._NPR_Ms_list(A)[1])-1) < 1e-9, A
""")
bug("nozzle-pt-not-reset", "C19", [("instance/nozzle.py",
    "        self._pt_init = None\n" if False else "        self._Pt = np.ones_like(self.AxoAc)\n        if NPR < self.NPR0:\n",
    "        if not hasattr(self, '_Pt'):\n            self._Pt = np.ones_like(self.AxoAc)\n        if NPR < self.NPR0:\n")],
    "a history: pressure ratio with an internal shock, then another regime on the same nozzle",
    "total pressure keeps the loss of the shock of the previous computation",
    """
import numpy as np
import aerokit.instance.nozzle as nz
x = np.linspace(0, 1, 101); s = 1+2*(x-.4)**2
a = nz.nozzle(x, s, NPR=2.); n = .5*(a.NPR0+a.NPRsw)
a.set_NPR(n); a.set_NPR(1.01)
b = nz.nozzle(x, s, NPR=1.01)
assert np.allclose(a.Ptot(), b.Ptot()) and np.allclose(a.Ps(), b.Ps())
""")
bug("nozzle-shock-downstream-pt", "C19", [("instance/nozzle.py",
    "                self._Pt[ish:] = Ptloss\n", "                self._Pt[ish + (ish < self._Pt.size - 1) * (Ptloss > 0.98):] = Ptloss\n")],
    "a weak internal shock (total pressure loss below 2 %)", "total pressure drops one section after the Mach number for weak shocks: mass flow is not the same in the section of the shock",
    """
import numpy as np
import aerokit.instance.nozzle as nz, aerokit.aero.MassFlow as mf
x = np.linspace(0, 1, 201); s = 1+2*(x-.4)**2
for f in (.02, .5):
    a = nz.nozzle(x, s, NPR=2.); a.set_NPR(a.NPR0+f*(a.NPRsw-a.NPR0))
    q = a.Ptot()*s*mf.WeightMassFlow(a.Mach())
    assert np.ptp(q)/q.mean() < 1e-6, (f, np.ptp(q)/q.mean())
""")
bug("nozzle-given-area-ratio", "C19", [("instance/nozzle.py",
    "        self.AxoAc = section * self.AsoAc / section[-1]\n", "        self.AxoAc = section / np.min(section)\n")],
    "an area ratio AsoAc prescribed by the user which is not that of the section law", "sections are not scaled by the prescribed area ratio: exit Mach number does not match",
    """
import numpy as np
import aerokit.instance.nozzle as nz
x = np.linspace(0, 1, 51); s = np.linspace(2., 3., 51)
n = nz.nozzle(x, s, AsoAc=3., NPR=1.02)
assert abs(n.Ps()[-1]/n.Ptot()[-1]*1.02-1) < 1e-6 and np.allclose(n.AxoAc, s)
m = n.Mach()
""")
bug("gas-save-once", "C20", [("common/defaultgas.py",
    "    _saved_r = _r\n    _saved_gamma = _gamma\n", "    _saved_r = globals().get('_saved_r', _r)\n    _saved_gamma = _gamma\n")],
    "a second save after the gas constant changed", "second save keeps the gas constant of the first one",
    """
from aerokit.common import defaultgas as d
d.set_r_ideal(300.); d.save_default(); d.restore_default(); d.set_r_ideal(250.); d.save_default(); d.set_r_ideal(1.); d.restore_default()
assert d.r_ideal() == 250.
""")
bug("gas-restore-swap", "C20", [("common/defaultgas.py",
    "    _r = _saved_r\n    _gamma = _saved_gamma\n", "    _r, _saved_r = _saved_r, _r\n    _gamma = _saved_gamma\n")],
    "two restores after one save", "second restore does not return to the values of the last save",
    """
from aerokit.common import defaultgas as d
d.set_r_ideal(300.); d.save_default(); d.set_r_ideal(1.); d.restore_default(); assert d.r_ideal() == 300.
d.set_r_ideal(2.); d.restore_default()
assert d.r_ideal() == 300.
""")
bug("gas-set-zero-ignored", "C20", [("common/defaultgas.py",
    "def set_gamma(gam):\n    global _gamma\n    _gamma = gam\n", "def set_gamma(gam):\n    global _gamma\n    _gamma = float(max(gam, 1.0001))\n")],
    "a gamma very close to 1 (isothermal gas)", "default gamma does not read back the value set",
    """
from aerokit.common import defaultgas as d
for g in (1.4, 1.2, 1.00001):
    d.set_gamma(g); assert d.gamma() == g
""")
bug("fanno-inplace", "C21", [("aero/Fanno.py",
    "    m2 = np.square(Mach)\n", "    m2 = np.asarray(Mach, dtype=float)\n    m2 *= m2\n")],
    "a float array argument", "friction parameter squares the Mach numbers of the caller in place",
    """
import numpy as np
import aerokit.aero.Fanno as f
m = np.array([.5, 2.]); f.maxFparam_Mach(m)
assert np.array_equal(m, [.5, 2.]), m
""", also=["C10"])
bug("legacy-velocity-r", "C21", [("aero/CompressibleFlow.py",
    "    return ist.Velocity_MachTi(Mach, Ti, r, gamma)", "    return ist.Velocity_MachTi(Mach, Ti, gamma=gamma)")],
    "an explicit gas constant given to the legacy function", "legacy velocity ignores the gas constant",
    """
import aerokit.aero.CompressibleFlow as cf, aerokit.aero.Isentropic as Is
assert abs(cf.Velocity_MachTi(1., 300., 400., 1.3)-Is.Velocity_MachTt(1., 300., 400., 1.3)) < 1e-9
""")
bug("legacy-sigma-hint", "C21", [("aero/CompressibleFlow.py",
    "    return mfl.Mach_Sigma(sigma, Mach, gamma)", "    return mfl.Mach_Sigma(sigma, gamma=gamma)")],
    "a subsonic start given to the legacy function", "legacy inversion of the area ratio ignores its Mach hint",
    """
import aerokit.aero.CompressibleFlow as cf, aerokit.aero.MassFlow as mf
for h in (.3, 2.):
    assert abs(float(cf.Mach_Sigma(2., h, 1.4))-float(mf.Mach_Sigma(2., h, 1.4))) < 1e-9
""")
bug("rayleigh-broadcast", "C21", [("aero/Rayleigh.py",
    "    m2 = np.square(Mach)\n    return m2 * np.square(((gamma + 1) / (1 + gamma * m2)))", "    m2 = np.square(Mach)\n    return m2 * np.square(((gamma + 1) / (1 + np.multiply.outer(gamma, m2))))")],
    "an array of gammas together with an array of Mach numbers", "elementwise result is replaced by an outer product",
    """
import numpy as np
import aerokit.aero.Rayleigh as r
M = np.array([.5, 2.]); g = np.array([1.3, 1.4])
a = r.Ts_Tscri(M, g)
assert a.shape == (2,) and abs(a[1]-r.Ts_Tscri(2., 1.4)) < 1e-12
""")
bug("deg-atan2-axis", "C22", [("aero/degree.py",
    "    return np.degrees(np.arctan2(a, b))", "    return np.degrees(2.0 * np.arctan(a / (np.hypot(a, b) + b)))")],
    "the negative axis (first argument 0, second negative)", "two-argument arctangent is undefined instead of 180 degrees",
    """
import numpy as np
import aerokit.aero.degree as d
assert abs(d.atan2(0., -1.)-180) < 1e-9
for a in np.linspace(-179, 179, 41):
    assert abs(d.atan2(np.sin(np.radians(a)), np.cos(np.radians(a)))-a) < 1e-6
""")
bug("deg-acos-small", "C22", [("aero/degree.py",
    "    return np.degrees(np.arccos(a))", "    return np.degrees(np.arctan(np.sqrt(1.0 - np.square(a)) / a)) % 180.0")],
    "argument 0 or -1 exactly", "inverse cosine is not in its principal range / undefined at 0 or -1",
    """
import aerokit.aero.degree as d, numpy as np
for x, a in ((1., 0.), (.5, 60.), (-.5, 120.), (-1., 180.)):
    assert abs(d.acos(x)-a) < 1e-9, x
""")
bug("deg-sin-large", "C22", [("aero/degree.py",
    "def sin(a):\n    return np.sin(np.radians(a))", "def sin(a):\n    return np.cos(np.radians(90.0 - np.abs(a))) * np.where(np.asarray(a) < -90.0, 1, np.sign(a))[()]")],
    "an angle below -90 degrees", "sine has the wrong sign for angles below -90 degrees",
    """
import aerokit.aero.degree as d, numpy as np
for a in (-30., 30., 120., -120.):
    assert abs(d.sin(a)-np.sin(np.radians(a))) < 1e-12, a
""")
bug("cheb-order-cache", "C23", [("common/numspectral.py",
    "        if order > self._max_Dorder:\n            self.compute_matder(order)\n        return self._matder[:, :, order - 1]",
    "        if order != self._max_Dorder:\n            self.compute_matder(max(order, self._max_Dorder))\n            self._matder[:, :, :-1] *= 1.0 if order >= self._max_Dorder else np.sign(self._xmax - self._xmin)\n        return self._matder[:, :, order - 1]")],
    "a lower order requested after a higher one on an interval given from right to left (xmax < xmin)", "matrix of a given order depends on the orders requested before",
    """
import numpy as np
import aerokit.common.numspectral as ns
for a, b in ((0., 2.), (2., 0.)):
    o = ns.ChebCollocation(6, a, b); D1 = o.matder(1).copy(); o.matder(3)
    assert np.allclose(o.matder(1), D1)
""")
bug("cheb-interval-power", "C23", [("common/numspectral.py",
    "            DM[:, :, ell] = D * (-2.0 / (self._xmax - self._xmin)) ** (ell + 1)", "            DM[:, :, ell] = D * (-2.0 / (self._xmax - self._xmin)) ** min(ell + 1, 4)")],
    "derivatives of order 5 and more (on any interval whose length is not 2, or sign)", "high-order differentiation matrices are wrong",
    """
import numpy as np
import aerokit.common.numspectral as ns
o = ns.ChebCollocation(8, 0., 3.)
for k in (1, 4, 5):
    f = o.x**6; c = np.polyder(np.poly1d([1, 0, 0, 0, 0, 0, 0]), k)
    assert np.max(np.abs(o.matder(k) @ f - c(o.x))) < 1e-6*np.max(np.abs(c(o.x))), k
""")
bug("cheb-fit-rcond", "C24", [("common/numspectral.py",
    "        coefs = np.linalg.lstsq(VdM, f)[0]", "        coefs = np.linalg.lstsq(VdM, f, rcond=1e-4)[0]")],
    "samples which do not cover the whole interval (badly conditioned fit)", "fitting samples of a polynomial does not return its nodal values",
    """
import numpy as np
import aerokit.common.numspectral as ns
o = ns.ChebCollocation(7, 0., 1.)
p = np.poly1d([1., -2., 3., .5, -1., 2., 1.])
for hi in (1., .3):
    x = np.linspace(0, hi, 60)
    assert np.max(np.abs(o.fit_to_gauss(x, p(x))-p(o.x))) < 1e-6, hi
""")
bug("cheb-extrapol-clip", "C24", [("common/numspectral.py",
    "        fx = chebyshev.chebval(self._x_to_xi(x), coefs)", "        fx = chebyshev.chebval(np.clip(self._x_to_xi(x), -1.0, 1.0), coefs)")],
    "a position outside the interval", "interpolation at positions outside of the interval is not the polynomial",
    """
import numpy as np
import aerokit.common.numspectral as ns
o = ns.ChebCollocation(5, 0., 1.)
assert abs(o.extrapol(o.x**3, np.array([.5, 1.2]))[1]-1.2**3) < 1e-9
""")
bug("rkf-nonautonomous", "C25", [("common/_ode.py",
    "    K[2] = h * F(x + 3.0 / 10 * h,", "    K[2] = h * F(x + 3.0 / 5 * h,")],
    "a right-hand side which depends on the abscissa", "adaptive integrator loses its accuracy (many rejected steps, wrong result) for non autonomous equations",
    """
import numpy as np
from aerokit.common._ode import RKF45, _rkf45
# one step: fifth-order accurate increment
e = []
for h in (.2, .1):
    dy, err = _rkf45(lambda x, y: np.array([np.cos(x)*y[0]]), 0., np.array([1.]), h)
    e.append(abs(1+dy[0]-np.exp(np.sin(h))))
assert e[1] < e[0]/30, e
""", also=["C09"])
bug("rkf-step-count", "C25", [("common/_ode.py", "    for i in range(10000):\n", "    for i in range(200):\n")],
    "an integration which needs more than 200 steps", "adaptive integrator stops before the requested abscissa without a word",
    """
import numpy as np
from aerokit.common._ode import RKF45
X, Y = RKF45(lambda x, y: np.array([y[1], -y[0]]), 0., np.array([1., 0.]), 300., .1, tol=1e-8)
assert abs(X[-1]-300.) < 1e-9
""")
bug("rk4-last-step", "C25", [("common/_ode.py",
    "    while x < xStop:\n        h = min(h, xStop - x)\n", "    while x < xStop - 1e-6:\n        h = min(h, xStop - x)\n")],
    "a short integration range (below 1e-6) or a last step below 1e-6", "fixed-step integrator does not end at the requested abscissa",
    """
import numpy as np
from aerokit.common._ode import RK4
for x1 in (1., 5e-7):
    X, Y = RK4(lambda x, y: -y, 0., np.array([1.]), x1, x1/2.5)
    assert abs(X[-1]-x1) < 1e-12*max(x1, 1e-3) and len(X) == 4, X
""")
bug("rk4-midpoint", "C25", [("common/_ode.py",
    "        K2 = h * F(x + h / 2.0, y + K1 / 2.0)\n", "        K2 = h * F(x + h / 2.0, y + (K1 if np.size(y) > 3 else K1 / 2.0))\n")],
    "a system of more than 3 equations", "fixed-step integrator is not fourth order for larger systems",
    """
import numpy as np
from aerokit.common._ode import RK4
for n in (1, 5):
    e = []
    for h in (.1, .05):
        X, Y = RK4(lambda x, y: -y, 0., np.ones(n), 1., h); e.append(abs(Y[-1][0]-np.exp(-1)))
    assert e[1] < e[0]/12
""")
# ---------------------------------------------------------------------------------------- C26-C28
bug("sort-modulus", "C26", [("stability/_base.py", '            "real": np.real,\n', '            "real": lambda x: np.abs(x.real),\n')],
    "a selection which contains negative real parts (realmin below 0)", "selected eigenvalues are sorted by modulus of their real part",
    """
import numpy as np
from aerokit.stability._base import LinOperator
o = LinOperator(5)
o._vals = np.array([1., -3., 2., -.5]) + 0j; o._vects = np.eye(4) + 0j
v, w, k = o.select_and_sort(realmin=-10., sort="real")
assert np.all(np.diff(v[k].real) >= 0), v[k]
""")
bug("select-vects-window", "C26", [("stability/_base.py",
    "        vects = np.compress(condition, self._vects, axis=1)\n",
    "        vects = np.compress((vp.real < realmax) & (vp.real >= realmin), self._vects, axis=1)[:, : vals.size]\n")],
    "a selection restricted by imagmin or imagmax", "selected eigenvectors are not those of the selected eigenvalues",
    """
import numpy as np
from aerokit.stability._base import LinOperator
o = LinOperator(5)
o._vals = np.array([1.-2j, 3.+1j, 2., .5-1j]); o._vects = np.eye(4) + 0j
for kw in ({}, dict(imagmin=-.5)):
    v, w, k = o.select_and_sort(**kw)
    for a, q in zip(v, w.T):
        assert o._vals[np.argmax(np.abs(q))] == a, kw
""")
bug("select-nan-inf", "C26", [("stability/_base.py",
    "condition = (vp.real < realmax) & (vp.real >= realmin) & (vp.imag > imagmin) & (vp.imag < imagmax)",
    "condition = ~((vp.real >= realmax) | (vp.real < realmin) | (vp.imag <= imagmin) | (vp.imag >= imagmax))")],
    "undefined eigenvalues (NaN, from boundary rows without time derivative)", "selection returns undefined eigenvalues",
    """
import numpy as np
from aerokit.stability._base import LinOperator
o = LinOperator(5)
o._vals = np.array([1., complex(np.nan, np.nan), 2.]); o._vects = np.eye(3) + 0j
v, w, k = o.select_and_sort()
assert np.all(np.isfinite(v)) and v.size == 2, v
""")
bug("euler-B0-gamma", "C27", [("stability/Euler.py", "        self._B0[ip:, ip:] = np.diag(q._gamma * dq.u)\n", "        self._B0[ip:, ip:] = np.diag(dq._gamma * dq.u)\n")],
    "gamma different from 1.4 together with a velocity gradient in the base state", "pressure equation of the linear operator uses gamma=1.4 in its zeroth order term",
    """
import numpy as np
from aerokit.stability.Euler import Euler1D
from aerokit.aero.model1D import state
for g in (1.4, 1.2):
    o = Euler1D(12, 0., 1.); x = o.x
    u = 2.+x; o.set_basestate(state(1.+0*x, u, 3.+0*x, g)); o.set_BC("per", "per")
    B, A = o.get_RHS_time_matrices()
    v = np.zeros(36); v[24:] = 1.   # uniform pressure perturbation
    r = (B @ v)[24:]
    assert np.allclose(r[1:-1], -g*1., atol=1e-8), (g, r[3])
""")
bug("euler-dp-term", "C27", [("stability/Euler.py", "        self._B0[n:ip, :n] = np.diag(-dq.p / q.rho ** 2)\n", "        self._B0[n:ip, :n] = np.diag(-dq.p / q.rho)\n")],
    "a base state with a pressure gradient and a density different from 1", "momentum equation of the linear operator is wrong in a pressure gradient",
    """
import numpy as np
from aerokit.stability.Euler import Euler1D
from aerokit.aero.model1D import state
for r in (1., 2.):
    o = Euler1D(12, 0., 1.); x = o.x
    o.set_basestate(state(r+0*x, .5+0*x, 3.+x, 1.4)); o.set_BC("per", "per")
    B, A = o.get_RHS_time_matrices()
    v = np.zeros(36); v[:12] = 1.
    assert np.allclose((B @ v)[13:23], 1./r**2, atol=1e-8), r
""")
bug("euler-bc-shared", "C27", [("stability/Euler.py",
    '        self._BC_dict = {\n            "sym": self.setBC_sym,\n            "per": self.setBC_per,\n            "RH": self.setBC_RH,\n        }\n',
    '        self._BC_dict.update({\n            "sym": self.setBC_sym,\n            "per": self.setBC_per,\n            "RH": self.setBC_RH,\n        })\n')],
    "two operators alive, the older one computed after the newer one is built", "boundary conditions of an operator are written in the most recently built one",
    """
import numpy as np
from aerokit.stability.Euler import Euler1D
from aerokit.aero.model1D import state
def make():
    o = Euler1D(10, 0., 1.); x = o.x
    o.set_basestate(state(1.+0*x, .5+0*x, 1.+0*x, 1.4)); o.set_BC("sym", "sym"); return o
ref = make().get_RHS_time_matrices()[0].copy()
a = make(); b = make(); b.get_RHS_time_matrices()
assert np.allclose(a.get_RHS_time_matrices()[0], ref)
""")
bug("euler-rh-gradient-step", "C27", [("stability/Euler.py",
    "            for ivar, dq0 in enumerate((dq1.rho, dq1.u, dq1.p)):\n", "            for ivar, dq0 in enumerate((dq1.rho, dq1.u, dq1.u)):\n")],
    "a shock boundary condition with a pressure gradient in the downstream base state",
    "linearised jump ignores the downstream pressure gradient (uniform flows are right)",
    """
import numpy as np
from aerokit.stability.Euler import Euler1D
from aerokit.aero.model1D import state
# coefficient of the shock displacement in the pressure jump: only the downstream pressure gradient changes between both flows
c = []
for dp in (0., 1.):
    o = Euler1D(14, 0., 1.); x = o.x
    o.set_basestate(state(1.+0*x, .5+0*x, 1.+dp*x, 1.4)); o.set_BC(dict(type="RH", dM0dx=0.), "sym")
    B, A = o.get_RHS_time_matrices()
    c.append(B[2*14, -1]/B[2*14, 2*14])
assert abs(c[1]-c[0]-1.) < 1e-6, c
""")
bug("os-inplace-At", "C28", [("stability/OrrSommerfeld.py",
    "        self._At = D2 - alpha ** 2 * np.eye(n)\n", "        self._At = D2\n        self._At -= alpha ** 2 * np.eye(n)\n")],
    "operators computed a second time by the same object (base state changed), or derivative matrices used after", "second-order derivative matrix is corrupted when operators are computed",
    """
import numpy as np
from aerokit.stability.OrrSommerfeld import Poiseuille
p = Poiseuille(20, 1., 1000.)
D2 = p._diffop.matder(2).copy()
B1 = p.get_RHS_time_matrices()[0].copy()
p.set_BC("wall", "wall")
B2 = p.get_RHS_time_matrices()[0]
assert np.allclose(B1, B2), np.abs(B1-B2).max()
""")
bug("os-ddu-mean", "C28", [("stability/OrrSommerfeld.py", "        ddu = D2 @ u\n", "        ddu = np.full(n, np.mean((D2 @ u)[1:-1]))\n")],
    "a velocity profile whose second derivative is not uniform (not a parabola)", "curvature of the base flow is averaged in the Orr-Sommerfeld operator",
    """
import numpy as np
from aerokit.stability.OrrSommerfeld import OrrSommerfeldModel
for u in (lambda y: 1-y**2, lambda y: 1-y**4):
    o = OrrSommerfeldModel(24, -1., 1., dict(alpha=1., Reynolds=1e9, uprofile=u)); o.set_BC("wall", "wall")
    B, A = o.get_RHS_time_matrices(); y = o.x; v = (1-y**2)**2
    d2 = 12*y**2-4; ddu = o._diffop.matder(2) @ u(y)
    ref = -1j*u(y)*(d2-v) + 1j*ddu*v
    assert np.allclose((B @ v)[3:-3], ref[3:-3], atol=1e-6)
""")
bug("os-profile-symmetric", "C28", [("stability/OrrSommerfeld.py", '        u = self._basestate["uprofile"](self.x)\n', '        u = self._basestate["uprofile"](np.abs(self.x))\n')],
    "a profile which is not symmetric (shear flow) or an interval not centred on 0", "base flow of negative positions is that of the opposite position",
    """
import numpy as np
from aerokit.stability.OrrSommerfeld import OrrSommerfeldModel
o = OrrSommerfeldModel(24, -1., 1., dict(alpha=1., Reynolds=1e9, uprofile=lambda y: y)); o.set_BC("wall", "wall")
B, A = o.get_RHS_time_matrices(); y = o.x; v = (1-y**2)**2
assert np.allclose((B @ v)[3:-3], (-1j*y*(12*y**2-4-v))[3:-3], atol=1e-6)
""")
bug("os-missing-keys", "C28", [("stability/OrrSommerfeld.py", "        if mis_keys != []:\n", "        if len(mis_keys) > 1:\n")],
    "a base state which lacks exactly one key", "incomplete base state is accepted when a single key is missing",
    """
from aerokit.stability.OrrSommerfeld import OrrSommerfeldModel, DictKeyError
for d in ({}, dict(alpha=1.), dict(alpha=1., Reynolds=10.)):
    o = OrrSommerfeldModel(10)
    try:
        o.set_basestate(d)
    except DictKeyError:
        continue
    raise AssertionError(d)
""")
bug("kerosene-phi-coefficient", "C29", [("aero/ThermoKerosen.py", "8.01994e-3 - 9.18648e-7*T", "8.01994e-3 - 9.81648e-7*T")],
    "entropy function of kerosene at high temperature", "entropy function and heat capacity of kerosene are inconsistent (0.5 %)",
    """
import math
import aerokit.aero.ThermoKerosen as k
for T in (400., 1800.):
    d = (k.Phi(T+1)-k.Phi(T-1))/2
    assert abs(d*T*k.r_air*math.log(10)/k.Cp(T)-1) < 1e-4, T
""")
bug("air-enthalpy-digit", "C29", [("aero/ThermoRealGas.py", "(-1.4e-5+7.467e-9*T)", "(-1.4e-5+7.647e-9*T)")],
    "high temperature (cubic term)", "enthalpy of air is not the integral of its heat capacity",
    """
import aerokit.aero.ThermoRealGas as a
for T in (300., 2500.):
    d = (a.Enthalpy(T+.5)-a.Enthalpy(T-.5))
    assert abs(d/a.Cp(T)-1) < 1e-4, T
""")
bug("air-low-temperature", "C29", [("aero/ThermoRealGas.py",
    "    a  = math.exp(3090./T)\n", "    a  = math.exp(min(3090./T, 12.))\n")],
    "a temperature below 257 K", "specific heat ratio of air at low temperature is not the one of its heat capacity",
    """
import aerokit.aero.ThermoRealGas as a
for T in (300., 200., 160.):
    c = a.Cp(T)
    assert abs(a.Gamma(T)-c/(c-a.rconst)) < 1e-10, T
""")
bug("gg-stale-velocity", "C30", [("engine/gasgenerator.py",
    "        self.V0  = self.M0*np.sqrt(gc*self.r_cold*self.T0)\n", "        if self.M0 > 0. or not hasattr(self, 'V0'):\n            self.V0  = self.M0*np.sqrt(gc*self.r_cold*self.T0)\n")],
    "an engine evaluated in flight, then at rest (M0=0)", "flight velocity of the previous evaluation is kept at rest",
    """
from aerokit.engine.turbojet import turbojet_opt
e = turbojet_opt(20., 1500.)
e.flight_conditions(220., 3e4, .8); e.update()
e.flight_conditions(288., 1e5, 0.); e.update()
f = turbojet_opt(20., 1500.); f.flight_conditions(288., 1e5, 0.); f.update()
assert abs(e.norm_thrust()-f.norm_thrust()) < 1e-9*f.norm_thrust()
""")
bug("gg-turbine-efficiency", "C30", [("engine/gasgenerator.py",
    "        self.Pt45 = self.Pt4*(self.Tt45/self.Tt4)**(gh/((gh-1.)*self.etapolTHP))\n",
    "        self.Pt45 = self.Pt4*(self.Tt45/self.Tt4)**(gh/((gh-1.)*self.etapolCHP))\n")],
    "different polytropic efficiencies of compressor and turbine", "turbine expansion uses the efficiency of the compressor",
    """
import math
from aerokit.engine.gasgenerator import base
e = base(20., 1500., etapolCHP=.9, etapolTHP=.85); e.flight_conditions(288., 1e5, 0.); e.update()
n = math.log(e.Pt45/e.Pt4)/math.log(e.Tt45/e.Tt4)
assert abs(n-1.4/.4/.85) < 1e-9, n
""")
bug("gg-shaft-side", "C30", [("engine/gasgenerator.py",
    "cpc*(self.Tt3-self.Tt2)/(self.eta_shaft*cph*(1.+self.far))", "cpc*(self.Tt3-self.Tt2)*self.eta_shaft/(cph*(1.+self.far))")],
    "a shaft efficiency different from 1", "turbine gives less power than the compressor takes",
    """
from aerokit.engine.gasgenerator import base
e = base(20., 1500., eta_shaft=.97); e.flight_conditions(288., 1e5, 0.); e.update()
assert abs((1+e.far)*(e.Tt4-e.Tt45)*.97-(e.Tt3-e.Tt2)) < 1e-6
""")
bug("tj-nozzle-gamma", "C30", [("engine/turbojet.py",
    "        self.M9  = Is.Mach_PtPs(self.Pt9/self.P0, gamma=self.gam_hot)\n", "        self.M9  = Is.Mach_PtPs(self.Pt9/self.P0, gamma=self.gam_cold)\n")],
    "different specific heat ratios of hot and cold gases", "jet Mach number is computed with the cold gas",
    """
from aerokit.engine.turbojet import turbojet_opt
e = turbojet_opt(20., 1500., gam_hot=1.3, xi_nozzle=.98); e.flight_conditions(220., 3e4, .8); e.update()
assert abs((1+.15*e.M9**2)**(1.3/.3)*3e4/e.Pt9-1) < 1e-9
""")
bug("tf-turbine-efficiency", "C30", [("engine/turbofan.py",
    "                                 etapolCHP=etapolCHP, etapolTHP=etapolTHP, eta_shaft=eta_shaft)\n        self.bpr ",
    "                                 etapolCHP=etapolCHP, etapolTHP=etapolTBP, eta_shaft=eta_shaft)\n        self.bpr ")],
    "different efficiencies of high and low pressure turbines", "high pressure turbine of a turbofan uses the efficiency of the low pressure one",
    """
import math
from aerokit.engine.turbofan import turbofan_adapt
e = turbofan_adapt(30., 1500., 6., .7, etapolTHP=.9, etapolTBP=.85); e.flight_conditions(220., 3e4, .8); e.update()
n = math.log(e.Pt45/e.Pt4)/math.log(e.Tt45/e.Tt4)
assert abs(n-3.5/.9) < 1e-9, n
""")
bug("tf-spec-thrust-bpr", "C30", [("engine/turbofan.py",
    "        return ((1.+self.far)*self.V9-self.V0 + self.bpr*(self.V19-self.V0))", "        return (1.+self.far)*(self.V9-self.V0) + self.bpr*(self.V19-self.V0)")],
    "a flight Mach number different from 0", "thrust counts an intake momentum for the fuel",
    """
from aerokit.engine.turbofan import turbofan_adapt
e = turbofan_adapt(30., 1500., 6., .7)
for M in (0., .8):
    e.flight_conditions(220., 3e4, M); e.update()
    F = (1+e.far)*e.V9-e.V0+6.*(e.V19-e.V0)
    assert abs(e.spec_thrust()*7.-F) < 1e-9*F, M
""")
bug("tf-fan-shaft", "C30", [("engine/turbofan.py",
    "self.eta_shaft*Wsp_mono*self.fanpower_ratio/(self.bpr*cpc)", "self.eta_shaft*Wsp_mono*min(self.fanpower_ratio, .9)/(self.bpr*cpc)")],
    "a fan power ratio above 0.9", "fan does not receive all the power of its turbine",
    """
from aerokit.engine.turbofan import turbofan_adapt
for k in (.5, .95):
    e = turbofan_adapt(30., 1500., 6., k); e.flight_conditions(220., 3e4, .8); e.update()
    cp = 3.5*287.1
    assert abs(6.*(e.Tt17-e.Tt2)-(1+e.far)*(e.Tt45-e.Tt5)) < 1e-6, k
""")
bug("cycle-stage5-guard", "C31", [("engine/Cycle_Turbofan.py",
    "        if self.current_stage_corps == 4 and self.current_stage_fan >= 13:\n", "        if self.current_stage_corps == 4 and self.current_stage_fan == 13:\n")],
    "core stages called after the bypass nozzle (13, 19, 5, 9) or calculs_5_to_9 after stage 19", "core expansion is silently skipped once the bypass jet is computed",
    """
import aerokit.engine.Cycle_Turbofan as c
g, f = c.Gaz(), c.Gaz(1.33, 291.6, 42800e3)
e = c.cycle_taux_fan_fixe(6.1, 32.8, 1410., 180., g, f, 1.6)
e.stage_13(); e.stage_19(); e.stage_5(); e.stage_9(); e.perfo()
assert e.F > 0
""")
bug("cycle-rerun-corps3", "C31", [("engine/Cycle_Turbofan.py",
    "        if self.current_stage_corps == 3:\n            self.stage_4()\n        \n", "        if self.current_stage_corps >= 3:\n            self.current_stage_corps = 3\n            self.stage_4()\n        \n")],
    "calculs_1_to_4 called again after the end of the cycle", "repeating the first part resets the stage of the core: end results are no longer recomputed and stage 5 runs again",
    """
import aerokit.engine.Cycle_Turbofan as c
g, f = c.Gaz(), c.Gaz(1.33, 291.6, 42800e3)
e = c.cycle_taux_fan_fixe(6.1, 32.8, 1410., 180., g, f, 1.6)
e.calculs_5_to_9(); e.calculs_1_to_4()
assert e.current_stage_corps == 9
""")
bug("cycle-fan-ratio-massflow", "C31", [("engine/Cycle_Turbofan.py",
    "            self.m_f = (self.lambda_ * self.m) / (self.lambda_ + 1.)\n", "            self.m_f = self.lambda_ * self.m_c if self.lambda_ > 1. else self.m - self.m_c * (1. + self.alpha)\n")],
    "a bypass ratio below 1 (military engine) with the computed fan ratio", "bypass mass flow is reduced by the fuel flow at low bypass ratios",
    """
import aerokit.engine.Cycle_Turbofan as c
g, f = c.Gaz(), c.Gaz(1.33, 291.6, 42800e3)
for l in (6., .6):
    e = c.cycle_taux_fan_calcule(l, 30., 1600., 100., g, f, .3); e.calculs_5_to_9()
    assert abs(e.m_f-100.*l/(1+l)) < 1e-9, l
""")
bug("cycle-share-gas", "C31", [("engine/Cycle_Turbofan.py",
    "            self.pi_t_f = (self.Tt4_etoile / self.Tt5)**(self.g_fuel.gsgmu / self.eta_turb)\n",
    "            self.pi_t_f = (self.Tt4_etoile / self.Tt5)**(self.g_fuel.gsgmu / cycle_1_to_4.eta_turb)\n")],
    "turbine efficiency set on an object or subclass (not the class default)", "low pressure turbine ignores the efficiency set by the user",
    """
import math
import aerokit.engine.Cycle_Turbofan as c
g, f = c.Gaz(), c.Gaz(1.33, 291.6, 42800e3)
class C(c.cycle_taux_fan_calcule):
    eta_turb = .8
e = C(6., 30., 1600., 100., g, f, .5); e.calculs_5_to_9()
assert abs(math.log(e.pi_t_f)/math.log(e.Tt4_etoile/e.Tt5)-1.33/.33/.8) < 1e-9
""")
bug("cycle-prop-efficiency", "C31", [("engine/Cycle_Turbofan.py",
    "            self.eta = self.eta_th * self.eta_prop\n            return self.F,", "            self.eta = self.eta_th * self.eta_prop / self.eta_comb\n            return self.F,")],
    "performance of the cycle with computed fan ratio", "overall efficiency is not the product of thermal and propulsive ones",
    """
import aerokit.engine.Cycle_Turbofan as c
g, f = c.Gaz(), c.Gaz(1.33, 291.6, 42800e3)
e = c.cycle_taux_fan_calcule(11, 41, 1620., 230., g, f, .58); e.calculs_5_to_9()
assert abs(e.eta-e.eta_th*e.eta_prop) < 1e-12
""")
bug("propu-direct-nozzle", "C31", [("engine/propu_be.py", "    T19 = Tt19 / (1 + ((gamma - 1)/2)*M19**2)\n", "    T19 = Tt19 / (1 + ((gamma_ - 1)/2)*M19**2)\n")],
    "the direct calculation (bypass jet)", "bypass jet temperature of the direct calculation uses the hot gas",
    """
import io, contextlib, re
import aerokit.engine.propu_be as p, aerokit.engine.Cycle_Turbofan as c
b = io.StringIO()
with contextlib.redirect_stdout(b):
    p.calculs(6.1, 32.8, 1410., 1.6, 180.)
e = c.cycle_taux_fan_fixe(6.1, 32.8, 1410., 180., c.Gaz(), c.Gaz(1.33, 291.6, 42800e3), 1.6); e.calculs_5_to_9()
F = float(re.search(r"F =\\s+([0-9.]+)", b.getvalue()).group(1))
assert abs(F-e.F) < 2., (F, e.F)
""")
bug("dico-shallow", "C32", [("common/dicovar.py", "                self._dv = _copy.deepcopy(soft[1])\n", "                self._dv = soft[1]\n")],
    "a variable added or changed, then the software selected again", "changes of a user leak into the database and survive a new selection",
    """
import aerokit.common.dicovar as d
d.setDicoVar('ic3'); d.dicoVar.setVar('T', 'TEMP'); d.setDicoVar('ic3')
assert d.dicoVar('T') == 'T'
""")
bug("dico-setvar-alias", "C32", [("common/dicovar.py",
    "        if var in self._dv:\n            self._dv[var] = sVar\n            print", "        if var in self._dv:\n            old = self._dv[var]\n            for key in self._dv:\n                if self._dv[key] == old:\n                    self._dv[key] = sVar\n            print")],
    "setVar of a name which shares its denomination with others (P, p, Ps or ???)", "changing one name changes all the names which had the same denomination",
    """
import aerokit.common.dicovar as d
d.setDicoVar('ic3'); d.dicoVar.setVar('T', 'TEMP'); d.dicoVar.setVar('Ps', 'PSTAT')
assert d.dicoVar('P') == 'P' and d.dicoVar('Ps') == 'PSTAT'
""")
bug("dico-addvar-case", "C32", [("common/dicovar.py",
    "        if var not in self._dv:\n            self._dv[var] = sVar\n", "        if var not in self._dv:\n            self._dv[var if var.isupper() else var.lower()] = sVar\n")],
    "a name in mixed case given to addVar", "a variable added under a mixed case name is stored under another name",
    """
import aerokit.common.dicovar as d
d.setDicoVar('ic3'); d.dicoVar.addVar('Tmax', 'A')
assert 'Tmax' in d.dicoVar.keys()
""")
bug("polar-pinit-marker", "C33", [("aero/plot/shockpolar.py",
    "            ax.plot(thet_init + thet, p_init * ps, 'ko', markerfacecolor='white')\n", "            ax.plot(thet_init + thet, ps, 'ko', markerfacecolor='white')\n")],
    "a reference pressure different from 1 with the sonic marker", "sonic marker of a shifted pressure polar is not on the curve",
    """
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt, numpy as np
from aerokit.aero.plot.shockpolar import plot_theta_pressure
for p in (1., 2.):
    plt.figure(); plot_theta_pressure(3., p_init=p, curve='right', sonic=True, npts=400)
    c, m = plt.gca().lines
    x, y = float(np.ravel(m.get_xdata())[0]), float(np.ravel(m.get_ydata())[0])
    d = np.min(np.hypot((c.get_xdata()-x)/30, (c.get_ydata()-y)/10/p)); plt.close('all')
    assert d < .02, (p, d)
""")
bug("polar-devmax-gamma", "C33", [("aero/plot/shockpolar.py",
    "        sig = sw.sigma_DevMax(mach, gamma=gamma)\n        if curve", "        sig = sw.sigma_DevMax(mach)\n        if curve")],
    "gamma different from 1.4 with the maximum deviation marker", "marker of maximum deviation is placed at the shock angle of air",
    """
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt, numpy as np
from aerokit.aero.plot.shockpolar import plot_theta_sigma
import aerokit.aero.ShockWave as sw
for g in (1.4, 1.2):
    plt.figure(); plot_theta_sigma(3., gamma=g, curve='right', devmax=True)
    m = plt.gca().lines[1]; s = float(np.ravel(m.get_ydata())[0]); d = float(np.ravel(m.get_xdata())[0]); plt.close('all')
    assert abs(sw.deflection_Mach_sigma(3., s, g)-d) < 1e-6, g
""")
bug("polar-iso-left", "C33", [("aero/plot/isentropicpolar.py",
    "            mach, -dev, gamma=gamma\n        )  # pressure ratio only depends on normal Mach number\n        plt.plot(thet_init + dev, ps,",
    "            mach, -dev, gamma=gamma\n        )  # pressure ratio only depends on normal Mach number\n        plt.plot(-thet_init + dev, ps,")],
    "the C- curve of a flow with an upstream angle", "left isentropic polar is shifted by the opposite of the upstream angle",
    """
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt, numpy as np
from aerokit.aero.plot.isentropicpolar import plot_theta_pressure
for t in (0., 5.):
    plt.figure(); plot_theta_pressure(3., (-8., 8.), thet_init=t, curve='C-', npts=16)
    l = plt.gca().lines[0]; x, y = l.get_xdata(), l.get_ydata(); plt.close('all')
    assert abs(x[np.argmin(np.abs(y-1.))]-t) < 1e-9, t
""")
bug("expr-entropy", "C34", [("common/extendvar.py", "    extdico['S']    = 'ln('+dico['P']+'/'+dico['rho']+'^'+_g+')'", "    extdico['S']    = 'ln(('+dico['P']+'/'+dico['rho']+')^'+_g+')'")],
    "the entropy expression evaluated on any sample with P or rho different from 1", "entropy expression is not constant on an isentrope",
    """
import math
from aerokit.common.extendvar import expressions_from_rhopv
e = expressions_from_rhopv()['S'].replace('^', '**').replace('ln', 'math.log')
P, RHO = 1., 1.
a = eval(e); RHO = 2.; P = 2**1.4
assert abs(eval(e)-a) < 1e-12
""")
bug("expr-alpha", "C34", [("common/extendvar.py", "'atan('+dico['Vy']+'/'+dico['Vx']+')*180/acos(-1)'", "'atan('+dico['Vy']+'/mag('+dico['V']+'))*180/acos(-1)'")],
    "a flow with a transverse component (large angle or third component)", "angle of attack expression is not the angle of the velocity in the x,y plane",
    """
import math
from math import atan, acos
from aerokit.common.extendvar import expressions_from_rhopv
e = expressions_from_rhopv()['alpha']
U_X, U_Y, U = 3., 4., (3., 4., 0.)
def mag(u): return math.sqrt(sum(q*q for q in u))
assert abs(eval(e)-math.degrees(math.atan2(4., 3.))) < 1e-9
""")


# ---------------------------------------------------------------------------------------- second campaign
bug("weight-hypersonic-limit", "C02", [("aero/MassFlow.py",
    "        * (1.0 + 0.5 * (gamma - 1) * Mach ** 2) ** (-0.5 * (gamma + 1.0) / (gamma - 1.0))\n",
    "        * np.where(\n            np.asarray(Mach) < 20.0, 1.0 + 0.5 * (gamma - 1) * np.asarray(Mach) ** 2, 0.5 * (gamma - 1) * np.asarray(Mach) ** 2\n"
    "        )\n        ** (-0.5 * (gamma + 1.0) / (gamma - 1.0))\n")],
    "Mach number of 20 or more",
    "weight of hypersonic flow uses the limit of the temperature ratio: more than the conserved mass flow by 1% and more",
    """
import aerokit.aero.MassFlow as mf
for M in (0.5, 3., 12., 21., 35.):
    k = float(mf.Sigma_Mach(M)*mf.WeightMassFlow(M)/mf.WeightMassFlow(1.))
    assert abs(k - 1) < 1e-9, (M, k)
""")
bug("pm-hypersonic-series", "C04", [("aero/Supersonic.py",
    "    return (cg * np.arctan(beta / cg) - np.arctan(beta)) * (180.0 / math.pi)",
    "    # series of arctan for hypersonic flow\n    far = np.asarray(beta) > 40.0\n    large = np.where(far, beta, 1.0)\n"
    "    a1 = np.where(far, 0.5 * math.pi - cg / large, np.arctan(beta / cg))\n    a2 = np.where(far, 0.5 * math.pi - 1.0 / large, np.arctan(beta))\n"
    "    return ((cg * a1 - a2) * (180.0 / math.pi))[()]")],
    "a Mach number above 40",
    "Prandtl-Meyer function uses a truncated series: not continuous, not the integral of its law, by up to 1e-3 degrees and more for light gamma",
    """
import numpy as np
import aerokit.aero.Supersonic as su
for M in (2., 30., 41., 60.):
    h = 1e-4*M
    d = (su.PrandtlMeyer_Mach(M+h, gamma=1.2)-su.PrandtlMeyer_Mach(M-h, gamma=1.2))/(2*h)
    b = np.sqrt(M*M-1)
    ref = np.degrees(b/(M*(1+.1*M*M)))
    assert abs(d/ref-1) < 1e-3, (M, d, ref)
""")
bug("pmmu-branch", "C04", [("aero/Supersonic.py",
    "    return np.sqrt((cg * deg.tan((om_m_mun + 90.0) / cg)) ** 2 + 1.0)",
    "    return np.sqrt((cg * deg.tan(np.minimum((om_m_mun + 90.0) / cg, 85.0))) ** 2 + 1.0)")],
    "omega-mu close to its limit (Mach above 28 at gamma 1.4)",
    "Mach number found from omega-mu saturates",
    """
import aerokit.aero.Supersonic as su, aerokit.aero.degree as deg
for M in (1.5, 10., 25., 35.):
    om = su.PrandtlMeyer_Mach(M); mu = deg.asin(1./M)
    assert abs(su.Mach_PMFmmu(om-mu)/M-1) < 1e-6, M
""")
bug("oblique-near-normal", "C06", [("aero/ShockWave.py",
    "    return sigma - np.degrees(np.arctan2(np.tan(sigrad), Rho_ratio(Mn, gamma)))",
    "    dev = sigma - np.degrees(np.arctan2(np.tan(sigrad), Rho_ratio(Mn, gamma)))\n"
    "    # no deflection through a normal shock\n    return np.where(np.cos(sigrad) > 2e-3, dev, 0.0)[()]")],
    "a shock angle above 89.89 degrees",
    "deflection of nearly normal shocks is zero, where tangential velocity is still conserved",
    """
import aerokit.aero.ShockWave as sw, math
for s in (60., 89., 89.95, 89.99):
    d = sw.deflection_Mach_sigma(3., s)
    r = sw.Rho_ratio(3.*math.sin(math.radians(s)))
    ref = s - math.degrees(math.atan2(math.tan(math.radians(s)), r))
    assert abs(d-ref) < 1e-9, (s, d, ref)
""")
bug("oblique-weak-isentropic", "C06", [("aero/ShockWave.py",
    "    Mn1 = downstream_Mn(Mn0, gamma)\n    return Mn1 / degree.sin(sig - dev)",
    "    Mn1 = downstream_Mn(Mn0, gamma)\n    # weak waves are isentropic compressions\n"
    "    weak = Is.Mach_PtPs(np.maximum(Is.PtPs_Mach(Mach, gamma) / Pratio, 1.0), gamma)\n"
    "    return np.where(np.asarray(Pratio) < 1.05, weak, Mn1 / degree.sin(sig - dev))[()]")],
    "a pressure ratio below 1.05",
    "downstream Mach number of weak shocks has no entropy jump (relative error 1e-5)",
    """
import aerokit.aero.ShockWave as sw, math
for pr in (1.02, 1.04, 1.2):
    M = 2.; mn = sw.Mn_Ps_ratio(pr); s = math.degrees(math.asin(mn/M)); d = sw.deflection_Mach_sigma(M, s)
    ref = sw.downstream_Mn(mn)/math.sin(math.radians(s-d))
    assert abs(sw.downstreamMach_Mach_ShockPsratio(M, pr)/ref-1) < 1e-9, pr
""")
bug("conical-frozen-energy", "C09", [("aero/ShockWave.py",
    "            * (1.0 + 0.5 * (gamma - 1) * ma * ma)\n", "            * (1.0 + 0.5 * (gamma - 1) * np.square(min(ma, 6.0)))\n")],
    "Mach number above 6 between cone shock and wall",
    "conical flow at hypersonic speed does not keep its total enthalpy",
    """
import numpy as np
import aerokit.aero.ShockWave as sw
from scipy.integrate import solve_ivp
def ref(M, s, g=1.4):
    th = np.radians(sw.deflection_Mach_sigma(M, s, g)); b = np.radians(s)
    m2 = sw.downstream_Mn(M*np.sin(b), g)/np.sin(b-th)
    v = 1/np.sqrt(2/((g-1)*m2*m2)+1)
    f = lambda t, y: [y[1], (y[1]*y[1]*y[0]-.5*(g-1)*(1-y[0]**2-y[1]**2)*(2*y[0]+y[1]/np.tan(t)))/(.5*(g-1)*(1-y[0]**2-y[1]**2)-y[1]**2)]
    ev = lambda t, y: y[1]
    ev.terminal = True
    s_ = solve_ivp(f, (b, 1e-4), [v*np.cos(b-th), -v*np.sin(b-th)], events=ev, rtol=1e-11, atol=1e-13)
    return np.degrees(s_.t[-1])
for M, s in ((2., 45.), (8., 20.), (12., 12.)):
    a = sw.conical_deflection_Mach_sigma(M, s)
    assert abs(a-ref(M, s)) < 1e-4, (M, s, a, ref(M, s))
""")
bug("state-sound-cache", "C12", [("aero/model1D.py",
    '        """returns speed of sound"""\n        return np.sqrt(self._gamma * self.p / self.rho)\n\n    def left',
    '        """returns speed of sound (kept until state is computed again)"""\n        if getattr(self, "_a", None) is None:\n'
    '            self._a = np.sqrt(self._gamma * self.p / self.rho)\n        return self._a\n\n    def left'),
    ("aero/model1D.py", "        self._gamma = gamma\n        self.rho = rho\n", "        self._gamma = gamma\n        self._a = None\n        self.rho = rho\n")],
    "pressure or density of a state assigned after one of its speeds has been read",
    "speed of sound, Mach number and total pressure stay those of the former values",
    """
import aerokit.aero.model1D as m
q = m.state(1.2, 50., 1e5)
q.Mach()
q.p = 2e5
assert abs(q.asound()**2/(1.4*2e5/1.2)-1) < 1e-12, q.asound()
""")
bug("state-pttt-supersonic-u", "C12", [("aero/model1D.py",
    "        a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2\n",
    "        a2 = gam * rtt - 0.5 * (gam - 1.0) * np.minimum(np.abs(u), np.sqrt(2 * gam / (gam + 1) * rtt)) * np.abs(u)\n")],
    "velocity above the critical one in compute_from_pt_rtt_u",
    "supersonic state computed from total quantities and velocity has another total temperature",
    """
import aerokit.aero.model1D as m
for u in (0.2, 0.9, 1.5):
    q = m.state(1., 0., 1.); q.compute_from_pt_rtt_u(2., 1.1, u)
    assert abs(q.rTtot()-1.1) < 1e-12 and abs(q.Ptot()-2.) < 1e-10, u
""")
bug("riemann-absolute-tolerance", "C16", [("instance/riemann.py", "        if self._pstar < self._qL.p:\n",
    "        if self._pstar < self._qL.p - 1e-8:\n")],
    "pressures of the order of 1e-8 or less (another unit system) with a left expansion",
    "the left fan is not drawn: the solution of the scaled problem is not the scaled solution",
    """
import numpy as np
import aerokit.aero.unsteady1D as uq, aerokit.aero.riemann as r
def run(k):
    pb = r.riemann_pb(uq.unsteady_state(1., 0., k), uq.unsteady_state(.125, 0., .1*k))
    x = np.linspace(-1.1, 1.5, 40)*k**.5
    return pb.qsol(x).p/k
assert np.allclose(run(1.), run(1e-9), rtol=1e-9)
""")
bug("cheb-diagonal-large", "C23", [("common/numspectral.py",
    "            np.fill_diagonal(D, -D.sum(axis=1))\n",
    "            np.fill_diagonal(D, -D.sum(axis=1) if ell < 4 else -D[:, ::-1].sum(axis=0))\n")],
    "derivative order 5 or 6", "differentiation matrices of order 5 and 6 do not differentiate polynomials",
    """
import numpy as np
from aerokit.common.numspectral import ChebCollocation as C
c = C(10, -1., 2.)
for k in range(1, 7):
    assert np.max(np.abs(c.matder(k) @ np.ones(10))) < 1e-4*np.max(np.abs(c.matder(k))), k
""")
bug("cheb-fit-weighted", "C24", [("common/numspectral.py",
    "        coefs = np.linalg.lstsq(VdM, f)[0]\n",
    "        # samples weighted as Gauss points\n        w = np.sqrt(1.0 + np.abs(self._x_to_xi(x)))\n        coefs = np.linalg.lstsq(VdM * w[:, np.newaxis], f * w)[0]\n")],
    "more samples than points, not taken from a polynomial of low degree",
    "the fit is not the least-squares best polynomial of the samples (polynomials are still reproduced)",
    """
import numpy as np
from aerokit.common.numspectral import ChebCollocation as C
c = C(4, 0., 1.)
x = np.linspace(0, 1, 15); f = np.exp(-8*(x-.3)**2)
v = c.fit_to_gauss(x, f)
p = c.extrapol(v, x)
for k in range(4):
    assert abs(np.dot(p-f, x**k)) < 1e-9, k
""")
bug("cheb-interp-last-data", "C24", [("common/numspectral.py",
    "        VdMxi = chebyshev.chebvander(self.xi, self._npts-1)\n        coefs = np.linalg.solve(VdMxi, fk)\n",
    "        # coefficients are kept for repeated interpolations of the same data\n        if getattr(self, '_lastfk', None) is not fk:\n"
    "            VdMxi = chebyshev.chebvander(self.xi, self._npts-1)\n            self._lastcoefs = np.linalg.solve(VdMxi, fk)\n            self._lastfk = fk\n"
    "        coefs = self._lastcoefs\n")],
    "an array of nodal values modified in place between two interpolations",
    "the second interpolation is that of the former values",
    """
import numpy as np
from aerokit.common.numspectral import ChebCollocation as C
c = C(6)
f = c.x**2
c.extrapol(f, np.array([.3]))
f[:] = c.x**3
assert abs(c.extrapol(f, np.array([.3]))[0]-.027) < 1e-10
""")
bug("repr-state-cached", "C35", [("aero/model1D.py",
    '        return "state (rho, u, p) : (%s, %s, %s)" % (self.rho, self.u, self.p)',
    '        if not hasattr(self, "_text"):\n            self._text = "state (rho, u, p) : (%s, %s, %s)" % (self.rho, self.u, self.p)\n        return self._text')],
    "a state printed, then changed, then printed again",
    "the second print shows the former values",
    """
import aerokit.aero.model1D as m
q = m.state(1.5, 0., 3.)
repr(q)
q.compute_from_pt_rtt_p(4., 2., 2.5)
assert "2.5" in repr(q) and "1.5" not in repr(q), repr(q)
""")
bug("repr-inflow-star", "C35", [("instance/unsteady_inflow.py",
    '            "(rho, u, p)*_L : (%s, %s, %s)\\n" % (self._qstarL.rho, self._qstarL.u, self._qstarL.p)',
    '            "(rho, u, p)*_L : (%s, %s, %s)\\n" % (self._qstarR.rho, self._qstarL.u, self._qstarL.p)')],
    "an inflow whose incoming density differs from the receding one (a contact)",
    "printed left density is the right one",
    """
import aerokit.aero.unsteady1D as uq
from aerokit.instance.unsteady_inflow import inflow_pb
pb = inflow_pb(uq.unsteady_state(1., 0., 1.)); pb.solve_with_pt0_rtt0(2., 3.)
assert str(pb.qstarL().rho) in repr(pb).splitlines()[0], repr(pb)
""")
bug("sweep-base-drift", "C35", [("engine/propu_be_double_corps.py",
    "        result = calculs(lambda_base,pi_c_base,Tt4_array[i],m,taux_meca)\n        results[0][i] = result[0]\n        results[1][i] = result[1]\n",
    "        result = calculs(lambda_base,pi_c_array[0] if pi_c_min > pi_c_base else pi_c_base,Tt4_array[i],m,taux_meca)\n        results[0][i] = result[0]\n        results[1][i] = result[1]\n")],
    "a range of compression ratios which starts above the base value",
    "temperature sweep is not drawn at the base compression ratio",
    """
import contextlib, io
import numpy as np
import matplotlib.pyplot as plt
import aerokit.engine.propu_be_double_corps as e
plt.Figure.show = lambda self, *a: None
for pc in ((20., 40.), (40., 50.)):
    plt.close('all')
    with contextlib.redirect_stdout(io.StringIO()):
        e.main(3., 9., pc[0], pc[1], 1300., 1600.)
        ref = [e.calculs(6.1, 32.8, t, 180, .5)[2] for t in np.linspace(1300., 1600., 20)]
    assert np.allclose(plt.figure(3).axes[2].lines[0].get_ydata(), ref), pc
""")
bug("stab-bc-keeps", "C27", [("stability/_base.py",
    "        self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]\n",
    "        new = [self._check_BC(Ltype), self._check_BC(Rtype)]\n        if self._BC_type is not None and new[0]['type'] == self._BC_type[0]['type']:\n"
    "            if new[1]['type'] == self._BC_type[1]['type']:\n                return  # operators are still valid\n        self._BC_type = new\n")],
    "boundary conditions of same type set again with other parameters (RH gradient) after operators were built",
    "operators keep the former boundary parameters",
    """
import numpy as np, contextlib, io
import aerokit.aero.model1D as m
from aerokit.stability.Euler import Euler1D
n = 8
op = Euler1D(n, 0., 1.)
x = op.x
op.set_basestate(m.state(1.+0.*x, .6+0.*x, 1.+0.*x))
Bs = []
with contextlib.redirect_stdout(io.StringIO()):
    for g in (.2, .4):
        op.set_BC({'type': 'RH', 'dM0dx': g}, 'sym')
        Bs.append(op.get_RHS_time_matrices()[0].copy())
assert np.max(np.abs(Bs[0]-Bs[1])) > 1e-6
""")
bug("euler-gamma-array", "C27", [("stability/Euler.py",
    "        self._Bx[ip:, n:ip] = np.diag(q._gamma * q.p) @ D\n",
    "        self._Bx[ip:, n:ip] = np.mean(q._gamma * q.p) * D if np.ptp(q.p) < 1e-3 * np.mean(q.p) else np.diag(q._gamma * q.p) @ D\n")],
    "a base state with pressure variations below 0.1%",
    "pressure of the linearised operator is replaced by its mean for nearly uniform pressure",
    """
import numpy as np
import aerokit.aero.model1D as m
from aerokit.stability.Euler import Euler1D
op = Euler1D(10, 0., 1.)
x = op.x
p = 1.+4e-4*x
op.set_basestate(m.state(1.+0.*x, .3+0.*x, p)); op.set_BC('sym', 'sym')
B, A = op.get_RHS_time_matrices()
v = np.zeros(30); v[10:20] = x**2
r = B @ v
ref = -1.4*p*2*x - 4e-4*x**2
assert np.allclose(r[20:30][1:-1], ref[1:-1], atol=1e-9)
""")
bug("os-profile-constant", "C28", [("stability/OrrSommerfeld.py",
    "        ddu = D2 @ u\n", "        ddu = D2 @ (u - u[0])\n        if np.all(np.abs(ddu[1:-1] - ddu[1]) < 0.5):\n            ddu = ddu[1] * np.ones(n)  # parabolic profile\n")],
    "a profile whose curvature varies by less than 0.5 over the section (e.g. a parabola plus a weak cubic)",
    "curvature term of the operator is constant",
    """
import numpy as np
from aerokit.stability.OrrSommerfeld import OrrSommerfeldModel as O
op = O(16, -1., 1.)
f = lambda y: 1-y**2+.03*y**3
op.set_basestate({'alpha': 1., 'Reynolds': 1000., 'uprofile': f}); op.set_BC('wall', 'wall')
B, A = op.get_RHS_time_matrices()
y = op.x; v = (1-y**2)**2; u = f(y); ddu = -2+.18*y
d2 = 12*y**2-4; d4 = 24.+0*y
ref = -1j*u*(d2-v)+1j*ddu*v+(d4-2*d2+v)/1000
assert np.allclose((B@v)[3:-3], ref[3:-3], atol=1e-6)
""")
bug("gas-default-float", "C20", [("common/defaultgas.py",
    "def set_gamma(gam):\n    global _gamma\n    _gamma = gam\n",
    "def set_gamma(gam):\n    global _gamma\n    if abs(gam - _gamma) > 1e-3:  # same gas otherwise\n        _gamma = gam\n")],
    "a new default gamma within 1e-3 of the current one",
    "the register keeps the former value",
    """
import aerokit.common.defaultgas as d
d.set_gamma(1.4); d.set_gamma(1.4005)
assert d.gamma() == 1.4005
d.set_gamma(1.4)
""")
bug("tf-no-bypass", "C30", [("engine/turbofan.py",
    "        self.Tt17 = self.Tt2 + self.eta_shaft*Wsp_mono*self.fanpower_ratio/(self.bpr*cpc)\n",
    "        self.Tt17 = self.Tt2 + self.eta_shaft*Wsp_mono*self.fanpower_ratio/(np.maximum(self.bpr, 0.5)*cpc)\n")],
    "a bypass ratio below 0.5 (military engines)",
    "fan does not receive the power of its turbine at low bypass ratio",
    """
import aerokit.engine.turbofan as tf
for b in (5., .8, .3):
    e = tf.turbofan_adapt(20., 1500., b, .3)
    e.flight_conditions(250., 5e4, .8); e.update()
    cpc = 1.4*e.r_cold/.4; cph = 1.4*e.r_hot/.4
    assert abs(b*cpc*(e.Tt17-e.Tt2)/((1+e.far)*cph*(e.Tt45-e.Tt5))-1) < 1e-9, b
""")
bug("dico-get-fallback", "C32", [("common/dicovar.py",
    "                self._dv = _copy.deepcopy(soft[1])\n", "                self._dv = dict(getattr(self, '_dv', {}), **soft[1]) if getattr(self, '_softName', '') == soft[0][0] else _copy.deepcopy(soft[1])\n")],
    "selecting again the software already selected, after variables were added",
    "added variables survive the selection of the database",
    """
import contextlib, io
import aerokit.common.dicovar as d
with contextlib.redirect_stdout(io.StringIO()):
    d.setDicoVar('cx'); d.dicoVar.addVar('foo', 'F'); d.setDicoVar('cx')
assert 'foo' not in d.dicoVar.keys()
""")

bug("sigma-sub-memo", "C03", [("aero/MassFlow.py",
    "def MachSub_Sigma(sigma, gamma=defg._gamma):\n",
    "def MachSub_Sigma(sigma, gamma=defg._gamma, _known={}):\n    if isinstance(sigma, float):\n"
    "        key = (round(float(sigma), 6), gamma)\n        if key not in _known:\n            _known[key] = _solve_Sigma(sigma, False, gamma)\n        return _known[key]\n")],
    "two area ratios closer than 1e-6, both asked as plain floats, e.g. 1 and 1+4e-7",
    "the second inversion returns the Mach number of the first (error 1e-3 near the throat)",
    """
import aerokit.aero.MassFlow as mf
for s in [1., 1.+1e-7, 1.+4e-7, 1.0000003]:
    m = float(mf.MachSub_Sigma(s))
    assert 0 < m <= 1.
    assert abs(float(mf.Sigma_Mach(m)) - s) < 1e-12, (s, m)
""")
bug("sigma-hint-first", "C03", [("aero/MassFlow.py",
    "def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):\n", "def Mach_Sigma(sigma, Mach=1.5, gamma=defg._gamma):\n    Mach = Mach if np.ndim(Mach) < 2 else np.ravel(Mach)[0]\n")],
    "a two-dimensional array of hints on both sides of Mach 1",
    "one branch is selected for all elements of a two-dimensional hint",
    """
import numpy as np
import aerokit.aero.MassFlow as mf
for hint in (np.array([2., .3]), np.array([[2., .3], [.5, 3.]])):
    m = mf.Mach_Sigma(1.5*np.ones(hint.shape), Mach=hint)
    assert np.all((m > 1) == (hint > 1)), m
""")
bug("rkf-relative-error", "C25", [("common/_ode.py",
    "        if e <= tol:\n", "        e = e / max(1.0, 1e-3 * np.max(np.abs(y)))\n        if not e > tol:\n")],
    "a solution larger than 1000",
    "tolerance becomes relative for large solutions: error is far above the requested one",
    """
import numpy as np
from aerokit.common._ode import RKF45
n = []
for k in (1., 1e7):
    X, Y = RKF45(lambda x, y: np.array([y[1], -y[0]]), 0., np.array([k, 0.]), 6., .1, tol=1e-9*k)
    assert abs(Y[-1][0]-k*np.cos(6.)) < 1e-7*k
    X, Y = RKF45(lambda x, y: np.array([y[1], -y[0]]), 0., np.array([k, 0.]), 6., .1, tol=1e-6)
    n.append(abs(Y[-1][0]-k*np.cos(6.)))
assert n[1] < 1e-2, n
""")
bug("cheb-shared-operators", "C23", [("common/numspectral.py",
    "        self._matder = DM\n        self._max_Dorder = maxorder",
    "        self._known.setdefault((N, M, abs(self._xmax - self._xmin)), DM)\n        self._matder = self._known[(N, M, abs(self._xmax - self._xmin))]\n        self._max_Dorder = maxorder\n\n    _known = {}  # matrices shared by operators of same size and length")],
    "two operators of same size and length, one with reversed direction",
    "odd derivatives of the second operator have the sign of the first",
    """
import numpy as np
from aerokit.common.numspectral import ChebCollocation as C
for c in (C(8, 0., 2.), C(8, 2., 0.)):
    assert np.allclose(c.matder(1) @ c.x, 1.), c.x[0]
""")
bug("riemann-contact-sample", "C15", [("instance/riemann.py",
    "        i = np.logical_and((xot >= self._waves[2]), (xot < self._waves[3]))\n",
    "        i = np.logical_and((xot > self._waves[2]), (xot < self._waves[3]))\n        i = np.logical_or(i, np.logical_and(xot == self._waves[2], self._ustar > 0.0))\n")],
    "a sample exactly on a contact which does not move to the right",
    "the sample on the contact is the undisturbed left state: solution depends on the frame",
    """
import numpy as np
import aerokit.aero.unsteady1D as uq, aerokit.aero.riemann as r
for u in (.5, -3.):
    pb = r.riemann_pb(uq.unsteady_state(1., u, 1.), uq.unsteady_state(.125, u, .1))
    x = np.array([pb.ustar()])
    q = pb.qsol(x)
    assert abs(q.p[0]/pb.pstar()-1) < 1e-9, (u, q.p, pb.pstar())
""")

# ---------------------------------------------------------------------------------------- third campaign
bug("isen-round-rest", "C01", [("aero/Isentropic.py",
    "    return np.sqrt((TtTs - 1.0) * 2.0 / (gamma - 1.0))",
    "    # round-off of a flow at rest must not be a speed\n    return np.sqrt(np.round((TtTs - 1.0) * 2.0 / (gamma - 1.0), 9))")],
    "a temperature ratio of a flow slower than Mach 1e-3",
    "squared Mach number is rounded to 9 digits: the Mach number of a slow flow is not recovered",
    """
import aerokit.aero.Isentropic as Is
for M in (1., .1, 1e-3, 2.6e-4):
    m = float(Is.Mach_TtTs(Is.TtTs_Mach(M)))
    assert abs(m/M - 1) < 1e-4, (M, m)
""")
bug("sigma-gamma-limit", "C02", [("aero/MassFlow.py",
    "    return (2.0 / (gamma + 1.0) * (1.0 + 0.5 * (gamma - 1) * Mach ** 2)) ** (\n        0.5 * (gamma + 1.0) / (gamma - 1.0)\n    ) / Mach",
    "    n = 0.5 * (gamma + 1.0) / (gamma - 1.0)\n    n = np.where(n > 10.0, np.round(n, 1), n)[()]\n    return (2.0 / (gamma + 1.0) * (1.0 + 0.5 * (gamma - 1) * Mach ** 2)) ** n / Mach")],
    "gamma below 1.105",
    "exponent of the area ratio is rounded for heavy gases: the minimum is not at Mach 1",
    """
import aerokit.aero.MassFlow as mf
for g in (1.4, 1.2, 1.09, 1.075):
    for M in (.3, .9, 2.):
        ref = mf.WeightMassFlow(1., gamma=g)/mf.WeightMassFlow(M, gamma=g)
        assert abs(mf.Sigma_Mach(M, g)/ref-1) < 1e-9, (g, M)
""")
bug("pm-clip-limit", "C04", [("aero/Supersonic.py",
    "    return (cg * np.arctan(beta / cg) - np.arctan(beta)) * (180.0 / math.pi)",
    "    omega = (cg * np.arctan(beta / cg) - np.arctan(beta)) * (180.0 / math.pi)\n    return np.minimum(omega, 90.0 * (np.sqrt((g + 1.0) / (g - 1.0)) - 1.0) - 5.0)")],
    "an angle within 5 degrees of the vacuum limit (Mach above about 40 for g=1.4)",
    "Prandtl-Meyer angle is constant close to the limit",
    """
import aerokit.aero.Supersonic as s
a = [s.PrandtlMeyer_Mach(m) for m in (5., 20., 60., 100., 300.)]
assert all(y > x + .1 for x, y in zip(a, a[1:])), a
""")
bug("pm-turn-expansion-sign", "C04", [("aero/Supersonic.py",
    "    m2 = Mach_PrandtlMeyer(PrandtlMeyer_Mach(Mach, gamma) - dev, gamma)",
    "    m2 = Mach_PrandtlMeyer(np.maximum(PrandtlMeyer_Mach(Mach, gamma) - dev, 1e-2), gamma)")],
    "a compression which brings the flow to Mach 1",
    "the state after a compression to sonic velocity is not the sonic state",
    """
import aerokit.aero.Supersonic as s, aerokit.aero.Isentropic as Is
for M in (1.1, 2.):
    for eps in (1., 1e-3, 1e-5):
        om = s.PrandtlMeyer_Mach(M)
        p = s.IsentropicPsratio_Mach_deflection(M, om-eps)
        assert abs(-s.deflection_Mach_IsentropicPsratio(M, p) - (om-eps)) < 1e-6, (M, eps)
""")
bug("shock-int-array", "C21", [("aero/ShockWave.py",
    "    return ((gamma + 1.0) * Mn ** 2) / (2.0 + (gamma - 1.0) * Mn ** 2)",
    "    ratio = np.empty_like(Mn, shape=np.broadcast(Mn, gamma).shape)\n    ratio[...] = ((gamma + 1.0) * Mn ** 2) / (2.0 + (gamma - 1.0) * Mn ** 2)\n    return ratio[()]")],
    "an array or scalar of integers",
    "density ratio has the type of the argument: it is truncated for integer Mach numbers",
    """
import numpy as np, aerokit.aero.ShockWave as s
assert np.allclose(s.Rho_ratio(np.array([2, 3])), [s.Rho_ratio(2.), s.Rho_ratio(3.)])
assert abs(s.Rho_ratio(2)-s.Rho_ratio(2.)) < 1e-12
""")
bug("shock-mn-strong", "C05", [("aero/ShockWave.py",
    "    return np.sqrt((1.0 + 0.5 * (gamma - 1.0) * Mn ** 2) / (gamma * Mn ** 2 - 0.5 * (gamma - 1.0)))",
    "    # strong shock limit\n    return np.sqrt(\n        np.where(\n            np.asarray(Mn) < 15.0,\n            (1.0 + 0.5 * (gamma - 1.0) * Mn ** 2) / (gamma * Mn ** 2 - 0.5 * (gamma - 1.0)),\n            0.5 * (gamma - 1.0) / gamma,\n        )\n    )[()]")],
    "a normal Mach number above 15",
    "downstream Mach number is the one of an infinitely strong shock: balances are not satisfied",
    """
import numpy as np, aerokit.aero.ShockWave as s
for M in (2., 10., 16., 30.):
    assert abs(s.Rho_ratio(M)*s.downstream_Mn(M)*np.sqrt(s.Ts_ratio(M))/M - 1) < 1e-9, M
""")
bug("shock-pt-weak-exact", "C05", [("aero/ShockWave.py",
    "    if ptratio > 1:\n        print(\"!!! cannot find Mn for Pt_ratio > 1\")\n        return 1\n",
    "    if ptratio > 1 - 1e-6:\n        if ptratio > 1:\n            print(\"!!! cannot find Mn for Pt_ratio > 1\")\n        return 1\n")],
    "a total pressure loss below 1e-6 (Mach up to 1.01)",
    "a weak shock is said to be a Mach wave",
    """
import aerokit.aero.ShockWave as s
for M in (2., 1.1, 1.009):
    assert abs(s.Mn_Pt_ratio(float(s.Pt_ratio(M)))-M) < 2e-4*(M-1)+1e-3, M
""")
bug("oblique-mach-limit", "C06", [("aero/ShockWave.py",
    "    return Mn1 / degree.sin(sig - dev)", "    return np.where(np.asarray(Mach) < 12.0, Mn1 / degree.sin(sig - dev), Mn1 / degree.sin(sig) * Rho_ratio(Mn0, gamma) * (gamma - 1.0) / (gamma + 1.0))[()]")],
    "an upstream Mach number above 12",
    "downstream Mach number uses the small angle limit of hypersonic flow",
    """
import numpy as np, aerokit.aero.ShockWave as s
for M in (2., 8., 14., 25.):
    sig = 40.
    Mn = M*np.sin(np.radians(sig)); d = s.deflection_Mach_sigma(M, sig)
    ref = s.downstream_Mn(Mn)/np.sin(np.radians(sig-d))
    assert abs(s.downstreamMach_Mach_ShockPsratio(M, s.Ps_ratio(Mn))/ref-1) < 1e-8, M
""")
bug("weak-detached-early", "C07", [("aero/ShockWave.py",
    "    if ke ** 2 - 4.0 * kd ** 3 > 0:\n        print(\"no weak shock wave solution\")",
    "    if ke ** 2 - 4.0 * kd ** 3 > -2e-4 * ke ** 2:\n        print(\"no weak shock wave solution\")")],
    "a deflection just below the maximum one",
    "an attached weak shock is said not to exist",
    """
import aerokit.aero.ShockWave as s
for M in (1.5, 3.):
    d = s.dev_Max(M)*(1-1e-5)
    assert abs(s.deflection_Mach_sigma(M, s.weaksigma_Mach_deflection(M, d))-d) < 1e-6, M
""")
bug("strong-small-deflection", "C07", [("aero/ShockWave.py",
    "        phi = np.arccos(-0.5 * ke / np.sqrt(kd ** 3)) + 4 * math.pi\n",
    "        phi = np.arccos(np.clip(-0.5 * ke / np.sqrt(kd ** 3), 1e-5 - 1.0, 1.0 - 1e-5)) + 4 * math.pi\n")],
    "Mach number and deflection for which the cubic has nearly its extreme argument (weak deflection close to Mach 1)",
    "strong angle is not a root of the deflection law",
    """
import numpy as np, aerokit.aero.ShockWave as s
for M in (1.02, 1.05, 1.2, 2., 5., 20.):
    for f in (1e-4, .01, .1, .5, .9, .999, 1-1e-9):
        d = f*s.dev_Max(M)
        assert abs(s.deflection_Mach_sigma(M, s.strongsigma_Mach_deflection(M, d))-d) < 1e-7*max(d, .05)+1e-9, (M, f)
""")
bug("sonic-hypersonic-limit", "C08", [("aero/ShockWave.py",
    "    kb = (gamma + 1) * (np.square(M2 - 3) + gamma * np.square(M2 + 1))\n",
    "    kb = (gamma + 1) * (np.square(M2 - 3) + gamma * np.square(M2 + 1))\n    kb = np.where(M2 > 144.0, np.square((gamma + 1) * M2 + gamma - 3), kb)\n"), ("aero/ShockWave.py",
    "    return degree.asin(np.sqrt((ka + np.sqrt(kb)) / (4 * gamma * M2)))", "    return degree.asin(np.sqrt((ka + np.sqrt(kb)) / (4 * gamma * M2)))[()]")],
    "an upstream Mach number above 12",
    "sonic angle is an asymptotic value: downstream Mach number is not 1",
    """
import numpy as np, aerokit.aero.ShockWave as s
for M in (2., 8., 13., 25.):
    sig = s.sigma_Sonic(M); Mn = M*np.sin(np.radians(sig))
    m = s.downstreamMach_Mach_ShockPsratio(M, s.Ps_ratio(Mn))
    assert abs(m-1) < 1e-6, (M, m)
""")
bug("conical-tol-floor", "C09", [("aero/ShockWave.py",
    "    while abs(conv) >= tol:\n        dthma, err = _rkf45(rhs, phi, thma, h)\n        # Accept integration step if error e is within tolerance\n        if err <= tol:\n",
    "    while abs(conv) >= tol:\n        dthma, err = _rkf45(rhs, phi, thma, h)\n        if err <= max(tol, 1e-3):\n")],
    "a conical shock (any requested tolerance)",
    "integration error of the conical flow is not controlled by the requested tolerance",
    """
import numpy as np, aerokit.aero.ShockWave as s
from scipy.integrate import solve_ivp
def ref(M, sig, g=1.4):
    d = s.deflection_Mach_sigma(M, sig, g); Mn = M*np.sin(np.radians(sig))
    m2 = s.downstream_Mn(Mn, g)/np.sin(np.radians(sig-d)); V = 1/np.sqrt(2/((g-1)*m2**2)+1)
    b = np.radians(sig-d)
    def f(t, y):
        v, w = y; c = (g-1)/2*(1-v*v-w*w)
        return [w, (w*w*v-c*(2*v+w/np.tan(t)))/(c-w*w)]
    e = lambda t, y: y[1]
    e.terminal = True
    r = solve_ivp(f, (np.radians(sig), 1e-4), [V*np.cos(b), -V*np.sin(b)], events=e, rtol=1e-11, atol=1e-12)
    return np.degrees(r.t[-1])
for M, sig in ((2., 40.), (5., 15.), (3., 25.), (10., 8.), (3., 60.), (1.5, 50.), (5., 12.), (2., 31.)):
    assert abs(s.conical_deflection_Mach_sigma(M, sig, tol=1e-9)-ref(M, sig)) < 1e-6, (M, sig)
""")
bug("rayleigh-sup-limit", "C11", [("aero/Rayleigh.py",
    "    return np.sqrt((1.0 + alpha) / (1.0 - alpha * gamma))",
    "    return np.sqrt((1.0 + alpha) / np.maximum(1.0 - alpha * gamma, 5e-3))")],
    "a total temperature ratio close to the hypersonic limit (Mach above about 18 for g=1.4)",
    "supersonic inversion saturates",
    """
import aerokit.aero.Rayleigh as r
for M in (2., 10., 20., 40.):
    assert abs(r.SupMach_TiTicri(r.Ti_Ticri(M))/M-1) < 1e-6, M
""")
bug("wave-shock-density-scale", "C13", [("aero/unsteady1D.py",
    "        return (p - self.p) * np.sqrt(\n            2.0 / self.rho / ((self._gamma + 1.0) * p + (self._gamma - 1.0) * self.p)\n        )",
    "        return (p - self.p) * np.sqrt(\n            2.0 / np.maximum(self.rho, 1e-3) / ((self._gamma + 1.0) * p + (self._gamma - 1.0) * self.p)\n        )")],
    "a density below 1e-3 (rarefied gas, or other units)",
    "velocity jump of a shock is not the Rankine-Hugoniot one at low density",
    """
import numpy as np
from aerokit.aero.unsteady1D import unsteady_state as us
for rho in (1., 1e-2, 1e-4, 1e-6):
    q = us(rho, 0., 1., 1.4)
    assert abs(q.delta_u_shock(3.)**2 - (3.-1.)*(1/rho-1/q.rho_through_shock(3.))) < 1e-9/rho, rho
""")
bug("riemann-fastest-clamp", "C16", [("instance/riemann.py",
    "    def right_fastest(self):\n        return self._waves[4]", "    def right_fastest(self):\n        return max(self._waves[4], 0.0)")],
    "a solution moving entirely to the left",
    "fastest wave speed is not changed by a Galilean shift",
    """
import aerokit.aero.unsteady1D as uq, aerokit.aero.riemann as r
a = r.riemann_pb(uq.unsteady_state(1., 0., 1.), uq.unsteady_state(.125, 0., .1)).right_fastest()
b = r.riemann_pb(uq.unsteady_state(1., -9., 1.), uq.unsteady_state(.125, -9., .1)).right_fastest()
assert abs(a-b-9.) < 1e-9, (a, b)
""")
bug("riemann-equal-pressure", "C15", [("instance/riemann.py",
    "        i = xot >= self._waves[4]\n", "        i = xot > max(self._waves[3], self._waves[4])\n")],
    "a sample exactly on the right shock or head of fan",
    "state on the right wave is the left one (initial filling)",
    """
import numpy as np
import aerokit.aero.unsteady1D as uq, aerokit.aero.riemann as r
pb = r.riemann_pb(uq.unsteady_state(1., 0., 1.), uq.unsteady_state(.125, 0., .1))
q = pb.qsol(np.array([pb.right_fastest()]))
assert min(abs(q.p[0]-.1), abs(q.p[0]-pb.pstar())) < 1e-9, q.p
""")
bug("inflow-keeps-side", "C17", [("instance/unsteady_inflow.py",
    "        self._qstarL = self._qR.copy()\n        self._qstarL.compute_from_pt_rtt_u(pt0, rtt0, self._ustar)",
    "        if getattr(self, '_qstarL', None) is None or self._qstarL.u != self._ustar:\n            self._qstarL = self._qR.copy()\n            self._qstarL.compute_from_pt_rtt_u(pt0, rtt0, self._ustar)")],
    "two solves of the same problem giving the same boundary velocity (e.g. closed end: zero velocity) with another total temperature",
    "boundary state has the total temperature of the previous solve",
    """
from aerokit.aero.unsteady1D import unsteady_state as us
from aerokit.instance.unsteady_inflow import inflow_pb
pb = inflow_pb(us(1., 0., 1., 1.4))
pb.solve_with_pt0_rtt0(1., 1.); pb.solve_with_pt0_rtt0(1., 2.)
assert abs(pb.qstarL().rTtot()-2.) < 1e-9, pb.qstarL()
""")
bug("nozzle-shock-near-throat", "C18", [("instance/nozzle.py",
    "    if NPR < NPR0:\n        Ms = Is.Mach_PtPs(NPR)\n    elif NPR > NPRsw:\n        Ms = Msup",
    "    if NPR < 1.002 * NPR0:\n        Ms = np.minimum(Is.Mach_PtPs(NPR), Msub)\n    elif NPR > NPRsw:\n        Ms = Msup")],
    "a pressure ratio slightly above the first critical one",
    "exit Mach number does not match the exit pressure (shock just behind the throat)",
    """
import aerokit.aero.nozzle as nz, aerokit.aero.MassFlow as mf, aerokit.aero.Isentropic as Is
for s in (1.5, 3.):
    n0 = nz.NPR_choked_subsonic(s)
    for f in (1.0005, 1.001, 1.01):
        M = nz.Ms_from_AsAc_NPR(s, f*n0)
        w = mf.WeightMassFlow(M)/mf.WeightMassFlow(1.)*s*Is.PtPs_Mach(M)/(f*n0)
        assert abs(w-1) < 1e-6, (s, f)
""")
bug("nozzle-section-inplace", "C19", [("instance/nozzle.py",
    "        self.AxoAc = section * self.AsoAc / section[-1]\n",
    "        self.AxoAc = np.asarray(section, dtype=float)\n        self.AxoAc *= self.AsoAc / section[-1]\n")],
    "two nozzles built from the same array of sections with a given area ratio, or an array kept by the caller",
    "section array of the caller is scaled in place",
    """
import numpy as np
import aerokit.aero.nozzle as nz
A = np.array([3., 2., 1.5, 2., 3.5]); B = A.copy()
n = nz.nozzle(np.arange(5.), A, NPR=1.5); n2 = nz.nozzle(np.arange(5.), B, NPR=1.5)
assert np.array_equal(A, [3., 2., 1.5, 2., 3.5]), A
""")
bug("nozzle-shared-pt", "C19", [("instance/nozzle.py",
    "        self._Pt = np.ones_like(self.AxoAc)\n        if NPR < self.NPR0:",
    "        if getattr(self, '_Pt', None) is None or NPR >= self.NPR0:\n            self._Pt = np.ones_like(self.AxoAc)\n        if NPR < self.NPR0:")],
    "a pressure ratio with internal shock followed by a fully subsonic one on the same nozzle",
    "total pressure loss of the former shock stays in the subsonic field",
    """
import numpy as np
import aerokit.aero.nozzle as nz
x = np.linspace(0, 1, 41); A = 1+2*(x-.5)**2*4
n = nz.nozzle(x, A, NPR=1.5); n.set_NPR(1.005)
assert np.allclose(n.Ptot(), 1.), n.Ptot()
""")
bug("gas-restore-resaves", "C20", [("common/defaultgas.py",
    "def restore_default():\n    global _saved_r, _saved_gamma, _r, _gamma\n    _r = _saved_r\n    _gamma = _saved_gamma",
    "def restore_default():\n    global _saved_r, _saved_gamma, _r, _gamma\n    # exchange: values in use are kept for a later restore\n    _r, _saved_r = _saved_r, _r\n    _gamma, _saved_gamma = _saved_gamma, _gamma")],
    "two restores after one save",
    "second restore goes back to the abandoned values",
    """
import aerokit.common.defaultgas as d
d.set_gamma(1.3); d.save_default(); d.set_gamma(1.2); d.restore_default(); assert d.gamma() == 1.3
d.set_gamma(1.1); d.restore_default(); assert d.gamma() == 1.3
d.restore_default(); assert d.gamma() == 1.3
""")
bug("rayleigh-entropy-list", "C21", [("aero/Rayleigh.py",
    "    alpha = np.sqrt(1.0 - Tiratio)\n    return np.sqrt((1.0 - alpha) / (alpha * gamma + 1))",
    "    alpha = np.sqrt(1.0 - Tiratio)\n    return np.sqrt((1.0 - alpha) / (alpha * (np.sort(gamma) if np.ndim(alpha) == 1 and np.ndim(gamma) else gamma) + 1))"),],
    "an array of ratios together with an array of unsorted gammas",
    "elements get the gamma of another element",
    """
import numpy as np, aerokit.aero.Rayleigh as r
t = np.array([.3, .5, .9]); g = np.array([1.6, 1.2, 1.4])
a = r.SubMach_TiTicri(t, g); b = [r.SubMach_TiTicri(x, y) for x, y in zip(t, g)]
assert np.allclose(a, b), (a, b)
""")
bug("deg-tan-near-90", "C22", [("aero/degree.py",
    "def tan(a):\n    return np.tan(np.radians(a))",
    "def tan(a):\n    return np.clip(np.tan(np.radians(a)), -1e4, 1e4)")],
    "an angle within 0.005 degree of 90",
    "tangent is limited",
    """
import numpy as np, aerokit.aero.degree as d
for a in (45., 89.9, 89.999, -89.9999):
    assert abs(d.tan(a)/np.tan(np.radians(a))-1) < 1e-9, a
""")
bug("deg-asin-negative", "C22", [("aero/degree.py",
    "def atan(a):\n    return np.degrees(np.arctan(a))",
    "def atan(a):\n    a = np.asarray(a)\n    return np.where(np.abs(a) > 1e5, 90.0, np.degrees(np.arctan(a)))[()]")],
    "a large negative tangent",
    "arctangent has the wrong sign for large negative arguments",
    """
import numpy as np, aerokit.aero.degree as d
for a in (1., -1e4, 1e6, -1e6):
    assert abs(d.atan(a)-np.degrees(np.arctan(a))) < 1e-3, a
""")
bug("cheb-fit-duplicates", "C24", [("common/numspectral.py",
    "        VdM = chebyshev.chebvander(self._x_to_xi(x), self._npts-1)\n        coefs = np.linalg.lstsq(VdM, f)[0]\n",
    "        x, k = np.unique(x, return_index=True)\n        VdM = chebyshev.chebvander(self._x_to_xi(x), self._npts-1)\n        coefs = np.linalg.lstsq(VdM, np.asarray(f)[k])[0]\n")],
    "samples with several values at the same position",
    "only one of repeated samples is used: not the least-squares polynomial",
    """
import numpy as np
from aerokit.common.numspectral import ChebCollocation as C
c = C(2, 0., 1.)
f = c.fit_to_gauss(np.array([0., 0., 1., 1.]), np.array([0., 2., 1., 3.]))
assert np.allclose(sorted(f), [1., 2.]), f
""")
bug("eig-select-order", "C26", [("stability/_base.py",
    "        order = np.argsort(sortmethod[sort](vals))\n", "        order = np.argsort(np.round(sortmethod[sort](vals), 3), kind='stable')\n")],
    "two eigenvalues closer than 1e-3",
    "order is not the one of the exact values",
    """
import numpy as np
from aerokit.stability import LinOperator
o = LinOperator(4); o._vals = np.array([1.0004, 1.0002, 3., 2.])+0j; o._vects = np.eye(4)
v, w, k = o.select_and_sort(realmin=-10.)
assert np.all(np.diff(v[k].real) > 0), v[k]
""")
bug("euler-sym-derivative", "C27", [("stability/Euler.py",
    "        self._B[i0 + ip, ip:il] = D[istate, :]\n", "        self._B[i0 + ip, ip:il] = D[min(istate, n // 2), :] if istate and self._basestate.size % 2 else D[istate, :]\n")],
    "an odd number of points with a symmetry condition at the last point",
    "pressure gradient is imposed in the middle instead of the wall",
    """
import numpy as np
from aerokit.stability.Euler import Euler1D
from aerokit.aero.model1D import state
for n in (8, 9):
    o = Euler1D(n, 0., 1.); q = state(np.ones(n), np.zeros(n), np.ones(n)/1.4)
    o.set_basestate(q); o.set_BC('sym', 'sym'); B, A = o.get_RHS_time_matrices()
    assert np.allclose(B[3*n-1, 2*n:3*n], o._diffop.matder(1)[n-1]), n
""")
bug("os-derivative-order", "C28", [("stability/OrrSommerfeld.py",
    "        self._B += (D4 - (2 * alpha ** 2) * D2 + alpha ** 4 * np.eye(n)) / Rey\n",
    "        self._B += (D4 - (2 * alpha ** 2) * D2 + (alpha ** 4 if alpha < 4 else (alpha * 1.02) ** 4) * np.eye(n)) / Rey\n")],
    "a wave number above 4",
    "viscous term is not the Orr-Sommerfeld one for short waves",
    """
import numpy as np
from aerokit.stability.OrrSommerfeld import Poiseuille
for al in (1., 3., 5.):
    o = Poiseuille(30, al, 100.); B, A = o.get_RHS_time_matrices(); y = o.x
    v = (1-y**2)**2; d2 = 12*y**2-4; d4 = 24.
    ref = (d4-2*al**2*d2+al**4*v)/100. - 1j*al*(1-y**2)*(d2-al**2*v) - 2j*al*v
    assert np.allclose((B@v)[3:-3], ref[3:-3], rtol=1e-6, atol=1e-6), al
""")
bug("kerosene-pc-high", "C29", [("aero/ThermoKerosen.py",
    "    return Pc_inf()+r_air*(1607.2+(-4.47659+(-4.00997e-3+6.12432e-7*T)*T)*T)",
    "    return Pc_inf()+r_air*(1607.2+(-4.47659+(-4.00997e-3+6.12432e-7*min(T, 2300.))*T)*T)")],
    "a temperature above 2300 K",
    "heating value no longer varies as the opposite of the enthalpy",
    """
import aerokit.aero.ThermoKerosen as k
for a, b in ((300., 2000.), (2000., 2600.)):
    assert abs(k.Pc_eff(b)-k.Pc_eff(a)+k.Enthalpy(b)-k.Enthalpy(a)) < 1., (a, b)
""")
bug("gg-array-conditions", "C30", [("engine/turbojet.py",
    "        self.Pt9 = np.maximum(self.Pt45 * self.xi_nozzle, self.P0)\n",
    "        self.Pt9 = self.Pt45 * (self.xi_nozzle if np.ndim(self.Pt45) == 0 else np.max(self.xi_nozzle))\n        self.Pt9 = np.maximum(self.Pt9, self.P0)\n")],
    "arrays of conditions together with an array of nozzle losses",
    "every element gets the smallest nozzle loss",
    """
import numpy as np
from aerokit.engine.turbojet import turbojet_opt as tj
def run(M, xi):
    t = tj(20., 1400., xi_nozzle=xi)
    t.flight_conditions(220., 2e4, M)
    t.update()
    return t.V9
M = np.array([.3, .8]); xi = np.array([.9, .99])
v = run(M, xi); w = [run(m, x) for m, x in zip(M, xi)]
assert np.allclose(v, w), (v, w)
""")
bug("cycle-alias-flight", "C31", [("engine/Cycle_Turbofan.py",
    "        self.Pt0 = self.P0 * Is.PtPs_Mach(Mach=self.M0, gamma=self.g.gamma)\n",
    "        cls = type(self)\n        self.Pt0 = cls.P0 * Is.PtPs_Mach(Mach=self.M0, gamma=self.g.gamma)\n")],
    "a static pressure changed on one cycle object",
    "inlet total pressure is the one of the class, not of the object",
    """
from aerokit.engine import Cycle_Turbofan as c
g, k = c.Gaz(), c.Gaz(1.33, 291.6, 42.8e6)
o = c.cycle_taux_fan_fixe(6., 30., 1500., 100., g, k, 1.5)
o.P0 = 5e4; o.current_stage_corps = 0; o.InitialValues()
assert abs(o.Pt0/5e4 - (1+.2*.64)**3.5) < 1e-9, o.Pt0
""")
bug("dico-set-upper", "C32", [("common/dicovar.py",
    "            if software.lower() in soft[0]:\n", "            if software.lower() in [name.lower() for name in soft[0]] and not softOK or software == self.__dict__.get('_softName'):\n")],
    "selecting a software by its main name while it is already in use",
    "selection by main name of the software in use takes the last table of the database",
    """
import aerokit.common.dicovar as d
d.setDicoVar('cx'); assert d.dicoVar('u_avg') == 'U_AVG'
d.setDicoVar('ic3'); assert d.dicoVar('u_avg') == 'U_AVG'
d.setDicoVar('of'); d.setDicoVar('openfoam'); assert d.dicoVar('u_avg') == 'Uavg'
try:
    d.setDicoVar('OpenFOAM')
except ValueError:
    pass
assert d.dicoVar('u_avg') == 'Uavg'
d.setDicoVar('cx')
try:
    d.setDicoVar('IC3')
except ValueError:
    pass
assert d.dicoVar('u_avg') == 'U_AVG', d.dicoVar('u_avg')
""")
bug("polar-left-init", "C33", [("aero/plot/shockpolar.py",
    "        ax.plot(thet_init - dev, ps, color=color, linestyle=linestyle, **kwargs)",
    "        ax.plot(thet_init - dev if curve == 'both' else -(thet_init + dev), ps, color=color, linestyle=linestyle, **kwargs)")],
    "the left curve alone with a non null initial angle",
    "left polar alone is shifted the wrong way",
    """
import matplotlib; matplotlib.use('Agg')
import numpy as np, matplotlib.pyplot as plt
from aerokit.aero.plot import shockpolar as sp
plt.figure(); sp.plot_theta_pressure(2., thet_init=5., curve='left')
x = plt.gca().lines[-1].get_xdata()
assert abs(x[0]-5.) < 1e-6 and x.min() < 0, (x[0], x.min())
""")
bug("polar-sonic-left", "C33", [("aero/plot/shockpolar.py",
    "            ax.plot(thet_init - thet, p_init * ps, 'ko', markerfacecolor='white')",
    "            ax.plot(thet_init - thet, p_init * ps if curve == 'both' else ps, 'ko', markerfacecolor='white')")],
    "sonic marker of the left curve alone with a reference pressure",
    "marker is not on the curve",
    """
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt, aerokit.aero.ShockWave as s
from aerokit.aero.plot import shockpolar as sp
import numpy as np
plt.figure(); sp.plot_theta_pressure(3., p_init=2., curve='left', sonic=True)
y = plt.gca().lines[-1].get_ydata()[0]
ref = 2*s.Ps_ratio(3*np.sin(np.radians(s.sigma_Sonic(3.))))
assert abs(y/ref-1) < 1e-9, (y, ref)
""")
bug("expr-mx-velocity", "C34", [("common/extendvar.py",
    "    extdico['V']    = 'mag('+dico['V']+')'\n    extdico['a' ]   = _a\n",
    "    extdico['V']    = 'mag('+dico['V']+')'\n    extdico['a' ]   = _a.replace('sqrt', 'sqrt(1)*sqrt', 1) if dico['P'] == 'P' else _a.replace('1.4', '1.2', 1)\n")],
    "a variable-name table where pressure was renamed",
    "sound speed expression uses another gas",
    """
import aerokit.common.dicovar as d
from aerokit.common.extendvar import expressions_from_rhopv as e
from math import sqrt
for n in ('P', 'Pressure'):
    d.setDicoVar('cx'); d.dicoVar.setVar('P', n)
    a = eval(e()['a'].replace('^', '**'), {'sqrt': sqrt, n: 2., 'RHO': 3.})
    assert abs(a-sqrt(1.4*2/3)) < 1e-9, n
d.setDicoVar('cx')
""")
bug("repr-state-rounded", "C35", [("aero/model1D.py",
    "        return \"state (rho, u, p) : (%s, %s, %s)\" % (self.rho, self.u, self.p)",
    "        return \"state (rho, u, p) : (%s, %s, %s)\" % (self.rho, self.u + 0.0 if abs(np.min(self.u)) > 1e-3 else 0.0, self.p)")],
    "a slow flow (below 1e-3)",
    "printed velocity is zero",
    """
from aerokit.aero.model1D import state
assert '0.0005' in repr(state(1., 5e-4, 1.))
""")
bug("repr-riemann-swap", "C35", [("instance/riemann.py",
    "            + \"(rho, u, p)_R : (%s, %s, %s)\" % (self._qR.rho, self._qR.u, self._qR.p)",
    "            + \"(rho, u, p)_R : (%s, %s, %s)\" % (self._qR.rho, self._qR.u, self._qR.p if self._qR.p != self._qL.p else self._pstar)")],
    "two states with the same pressure and different velocities",
    "star pressure is printed for the right state",
    """
import aerokit.aero.unsteady1D as uq, aerokit.aero.riemann as r
pb = r.riemann_pb(uq.unsteady_state(1., 1., 2.), uq.unsteady_state(1., -1., 2.))
assert repr(pb).splitlines()[-1].endswith('2.0)'), pb
""")

# ---------------------------------------------------------------------------------------- fourth campaign
bug("sigma-near-throat-series", "C03", [("aero/MassFlow.py",
    "def MachSup_Sigma(sigma, gamma=defg._gamma):",
    "def MachSup_Sigma(sigma, gamma=defg._gamma, near=1e-6):\n    excess = np.asarray(sigma) - 1.0\n"
    "    if np.all((excess >= 0.0) & (excess < near)):  # parabolic expansion at throat\n"
    "        return (1.0 + np.sqrt(1.2 * excess))[()]")],
    "section ratio within 1e-6 of 1 and gamma different from 1.4",
    "supersonic Mach number next to the throat is that of gamma 1.4",
    """
import aerokit.aero.MassFlow as mf
for g in (1.4, 1.2, 1.67):
    s = 1+5e-7
    m = float(mf.MachSup_Sigma(s, g))
    assert abs((float(mf.Sigma_Mach(m, g))-1)/5e-7-1) < 5e-3, (g, m)
""")
bug("sigma-int-dtype", "C03", [("aero/MassFlow.py",
    "def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):\n",
    "def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma, out=None):\n    if np.ndim(sigma) > 0:\n"
    "        out = np.empty_like(sigma) if out is None else out\n        out[...] = _solve_Sigma(sigma, np.greater(Mach, 1.0), gamma)\n        return out\n")],
    "an integer array of section ratios",
    "Mach numbers are truncated to integers",
    """
import numpy as np, aerokit.aero.MassFlow as mf
m = mf.Mach_Sigma(np.array([2, 3]))
assert np.allclose(mf.Sigma_Mach(np.asarray(m, float)), [2, 3]), m
""")
bug("weight-r-scaling", "C02", [("aero/MassFlow.py", "        np.sqrt(gamma)\n", "        np.sqrt(gamma * 287.1 / r)\n")],
    "a gas constant different from 287.1 given to WeightMassFlow",
    "dimensionless mass flow depends on the gas constant",
    """
import aerokit.aero.MassFlow as mf
assert abs(mf.WeightMassFlow(.5, r=2077.)/mf.WeightMassFlow(.5)-1) < 1e-9
""")
bug("fanno-density-limit", "C10", [("aero/Fanno.py",
    "    return 1.0 / Mach * np.sqrt(2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach)))",
    "    rho = 1.0 / Mach * np.sqrt(2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach)))\n"
    "    return np.where(np.asarray(Mach) > 15.0, np.sqrt((gamma - 1) / (gamma + 1)), rho)[()]")],
    "Mach above 15",
    "hypersonic limit used for density: mass is not conserved to 1 %",
    """
import aerokit.aero.Fanno as f
for M in (2., 14., 16., 30.):
    assert abs(f.Rho_Rhocri(M)*f.V_Vcri(M)-1) < 1e-9, M
""")
bug("fanno-ps-subsonic-gamma", "C10", [("aero/Fanno.py",
    "    return 1.0 / (Mach * np.sqrt(2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach))))",
    "    tt = np.where(np.asarray(Mach) > 1e-2, 1 + (gamma - 1) / 2 * np.square(Mach), 1.0)[()]\n"
    "    return 1.0 / (Mach * np.sqrt(2 / (gamma + 1) * tt))")],
    "Mach below 0.01", "pressure ratio neglects compressibility at low Mach (equation of state broken at 1e-5)",
    """
import aerokit.aero.Fanno as f
for M in (.5, .02, .009):
    assert abs(f.Rho_Rhocri(M)*f.Ts_Tscri(M)/f.Ps_Pscri(M)-1) < 1e-9, M
""")
bug("rayleigh-sub-cold-gamma", "C11", [("aero/Rayleigh.py",
    "    alpha = np.sqrt(1.0 - Tiratio)\n    return np.sqrt((1.0 - alpha) / (alpha * gamma + 1))",
    "    alpha = np.sqrt(1.0 - Tiratio)\n    # avoid cancellation for cold flows\n"
    "    return np.where(np.asarray(Tiratio) < 1e-5, np.sqrt(0.5 * np.asarray(Tiratio) / 2.4), np.sqrt((1.0 - alpha) / (alpha * gamma + 1)))[()]")],
    "total temperature ratio below 1e-5 (Mach below 0.0015) and gamma different from 1.4",
    "subsonic inverse returns the Mach number of another gas",
    """
import aerokit.aero.Rayleigh as r
for g in (1.4, 1.2, 1.6):
    for M in (.5, .01, .0012):
        assert abs(float(r.SubMach_TiTicri(r.Ti_Ticri(M, g), g))/M-1) < 1e-4, (g, M)
""")
bug("wave-expansion-floor", "C13", [("aero/unsteady1D.py",
    "        return self.asound() / gmusd * ((p / self.p) ** (gmusd / self._gamma) - 1.0)",
    "        return self.asound() / gmusd * (np.maximum(p / self.p, 1e-9) ** (gmusd / self._gamma) - 1.0)")],
    "an expansion by a pressure ratio above 1e9",
    "velocity increase is limited before vacuum",
    """
import aerokit.aero.unsteady1D as uq
q = uq.unsteady_state(1., 0., 1.)
for p in (.5, 1e-6, 1e-11):
    a = (1.4*p/q.rho_through_isentropic(p))**.5
    assert abs((q.delta_u_expansion(p)+5*(q.asound()-a))) < 1e-6, p
""", also=("C14",))
bug("riemann-int-state", "C15", [("instance/riemann.py",
    "        rho = self._qL.rho * np.ones(len(xot))\n", "        rho = np.full(len(xot), self._qL.rho)\n")],
    "left density given as a Python integer",
    "sampled density is truncated to integers",
    """
import numpy as np, aerokit.aero.unsteady1D as uq, aerokit.aero.riemann as r
pb = r.riemann_pb(uq.unsteady_state(1, 0, 1), uq.unsteady_state(.125, 0., .1))
q = pb.qsol(np.array([pb.ustar()-1e-3]))
assert abs(q.rho[0]/pb.qstarL().rho-1) < 1e-9, q.rho
""")
bug("riemann-alias-right", "C15", [("instance/riemann.py", "        self._qR = qR.copy()\n", "        self._qR = qR\n")],
    "the right state object is modified after the problem was solved, then the solution is sampled",
    "sampled solution mixes the solved star state and the modified state",
    """
import numpy as np, aerokit.aero.unsteady1D as uq, aerokit.aero.riemann as r
qr = uq.unsteady_state(.125, 0., .1)
pb = r.riemann_pb(uq.unsteady_state(1., 0., 1.), qr)
qr.p = .7
assert abs(pb.qsol(np.array([99.])).p[0]-.1) < 1e-12
""")
bug("nozzle-adapt-weak-overexpansion", "C18", [("instance/nozzle.py",
    "    elif NPR > NPR1:  # under expanded flow\n", "    elif NPR > 0.8 * NPR1:  # nearly adapted or under expanded flow\n")],
    "an overexpanded jet with NPR between 80 % and 100 % of the adapted one",
    "jet Mach number is isentropic where an oblique shock adapts the pressure",
    """
import aerokit.aero.nozzle as nz, aerokit.aero.MassFlow as mf, aerokit.aero.ShockWave as sw
n1 = nz.NPR_choked_supersonic(2.); M = float(mf.MachSup_Sigma(2.))
for f in (.7, .85, .95):
    ref = float(sw.downstreamMach_Mach_ShockPsratio(M, 1/f))
    assert abs(float(nz.Madapt_from_AsAc_NPR(2., f*n1))/ref-1) < 1e-6, f
""")
bug("nozzle-convergent-throat", "C19", [("instance/nozzle.py",
    "            self.AsoAc = section[-1] / np.min(section)\n", "            self.AsoAc = section[-1] / np.min(section[:-1])\n")],
    "a convergent nozzle (throat at the exit section)",
    "area ratio is below 1 for a convergent nozzle",
    """
import numpy as np, aerokit.aero.nozzle as nz
n = nz.nozzle(np.linspace(0, 1, 11), np.linspace(2., 1., 11), NPR=1.5)
assert abs(n.Ps()[-1]*1.5-1) < 1e-9 and abs(n.AsoAc-1) < 1e-12
""", also=("C18",))
bug("nozzle-choked-early", "C19", [("instance/nozzle.py",
    "        if NPR < self.NPR0:\n            _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)\n",
    "        if NPR < 1.0 + (self.NPR0 - 1.0) * (1.0 - 1e-3):\n            _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)\n")],
    "NPR between 99.9 % and 100 % of the subsonic choking limit",
    "nozzle is solved as choked before it is: total pressure increases downstream of the throat",
    """
import numpy as np, aerokit.aero.nozzle as nz
s = 1+4*np.linspace(-1, 1, 41)**2
n = nz.nozzle(np.linspace(-1, 1, 41), s)
for f in (.9, .9995, 1.2):
    n.set_NPR(1+f*(n.NPR0-1))
    assert np.max(n.Ptot()) <= 1+1e-9 and (f > 1 or np.max(n.Mach()) < 1), (f, n.Ptot())
""")
bug("converge-inplace", "C26", [("stability/_base.py",
    "        new_eigm = eigenmode / nplin.norm(eigenmode)\n",
    "        new_eigm = np.asarray(eigenmode, dtype=complex)\n        new_eigm /= nplin.norm(new_eigm)\n")],
    "a complex starting mode that is not normalised",
    "the caller's mode is rescaled in place",
    """
import numpy as np
from aerokit.stability.OrrSommerfeld import Poiseuille
p = Poiseuille(30, 1., 2000.)
v, w = p.solve_eig()
i = int(np.argmin(abs(v-(.31-.02j))))
m = 3.*w[:, i]+0j
m0 = m.copy()
p.converge_eigenpair(v[i], m)
assert np.array_equal(m, m0)
""")
bug("euler-at-reuse", "C27", [("stability/Euler.py",
    "        self._At = np.eye(N)\n", "        if getattr(self, '_eye', None) is None or len(self._eye) != N:\n            self._eye = np.eye(N)\n        self._At = self._eye\n")],
    "boundary conditions changed on the same model from a symmetric one to a shock",
    "time matrix keeps rows cleared by the former boundary condition",
    """
import numpy as np, aerokit.aero.model1D as m1d
from aerokit.stability.Euler import Euler1D
n = 20
one = np.ones(n)
q = m1d.state(one, .5*one, one)
def mk():
    return Euler1D(n, 0., 1., basestate=q)
a = mk(); a.set_BC('sym', 'sym'); a.get_RHS_time_matrices()
rh = {'type': 'RH', 'dM0dx': .1}
a.set_BC(dict(rh), 'sym'); b = mk(); b.set_BC(dict(rh), 'sym')
assert np.allclose(a.get_RHS_time_matrices()[1], b.get_RHS_time_matrices()[1])
""")
bug("euler-rh-null-gradient", "C27", [("stability/Euler.py",
    "        if dM0dx is None:  # if not defined, compute upstream gradient from downstream\n",
    "        if not dM0dx:  # if not defined, compute upstream gradient from downstream\n")],
    "a shock in a uniform upstream flow (dM0dx equal to 0)",
    "null upstream gradient is taken for a missing one",
    """
import numpy as np, aerokit.aero.model1D as m1d
from aerokit.stability.Euler import Euler1D
n = 20
one = np.ones(n)
m = Euler1D(n, 0., 1., basestate=m1d.state(one, .5*one, one))
m.set_BC({'type': 'RH', 'dM0dx': 0.}, 'sym')
m.get_RHS_time_matrices()
""")
bug("os-complex-alpha", "C28", [("stability/OrrSommerfeld.py",
    "        self._At = D2 - alpha ** 2 * np.eye(n)\n", "        self._At = D2 - np.abs(alpha) ** 2 * np.eye(n)\n")],
    "a complex wave number (spatial theory)",
    "Laplacian uses the squared modulus of the wave number",
    """
import numpy as np
from aerokit.stability.OrrSommerfeld import Poiseuille
al = 1.+.2j
p = Poiseuille(20, al, 1000.)
B, A = p.get_RHS_time_matrices()
d = A[4:-4]-(p._diffop.matder(2)-al**2*np.eye(20))[4:-4]
assert np.max(abs(d)) < 1e-9
""")
bug("gg-power-null-pressure", "C30", [("engine/gasgenerator.py",
    "        if P19 is None: P19=self.P0\n", "        P19 = P19 or self.P0\n")],
    "expansion to vacuum (P19 equal to 0)",
    "ideal power to vacuum is the one to the ambient pressure",
    """
import aerokit.engine.gasgenerator as gg
g = gg.base(20., 1500.)
g.flight_conditions(250., 3e4, .8); g.update()
ref = (1+g.far)*3.5*287.1*g.Tt45
assert abs(g.Wsp_TBP_ideal(P19=0.)/ref-1) < 1e-9
""")
bug("gg-static-after-flight", "C30", [("engine/gasgenerator.py",
    "        self.M0 = M0\n", "        self.M0 = M0 if np.any(M0) else getattr(self, 'M0', M0)\n")],
    "static conditions (M0 = 0) set on an engine after flight conditions",
    "former flight Mach number is kept",
    """
import aerokit.engine.turbojet as tj
e = tj.turbojet_opt(20., 1500.)
e.flight_conditions(250., 3e4, .8); e.update()
e.flight_conditions(288., 1e5, 0.); e.update()
assert e.V0 == 0 and abs(e.Tt0-288) < 1e-9, (e.V0, e.Tt0)
""")
bug("cycle-etoile-restart", "C31", [("engine/Cycle_Turbofan.py",
    "    def stage_4_etoile(self):\n        if self.current_stage_corps == 4:\n",
    "    def stage_4_etoile(self):\n        if self.current_stage_corps >= 4:\n")],
    "stage 4* called again on an advanced cycle, flight attributes unchanged",
    "core stage counter goes back: later calls do not complete the cycle",
    """
import io, contextlib
from aerokit.engine.Cycle_Turbofan import *
c = cycle_taux_fan_calcule(11, 41, 1620., 230., Gaz(), Gaz(1.33, 291.6, 42800e3), .58)
with contextlib.redirect_stdout(io.StringIO()):
    c.calculs_5_to_9()
    c.stage_4_etoile()
    out = io.StringIO()
with contextlib.redirect_stdout(out):
    c.show_perfo()
assert 'Pouss' in out.getvalue()
""")
bug("dico-failed-switch", "C32", [("common/dicovar.py",
    "        softOK = False\n", "        softOK = False\n        self._dv = {}\n"), ("common/dicovar.py", "            if software.lower() in soft[0]:\n", "            if software.lower() in soft[0]:  # known names\n")],
    "setDicoVar with an unknown software (ValueError), then reading a variable",
    "dictionary is emptied by a failed switch",
    """
import aerokit.common.dicovar as d
d.setDicoVar('cx')
try:
    d.setDicoVar('nosuch')
except ValueError:
    pass
assert d.dicoVar('rho') == 'RHO'
""")
bug("dico-get-strip", "C32", [("common/dicovar.py",
    "            self._dv[var] = sVar\n            print('---- HADES::DicoVar ----')\n", "            self._dv[var] = sVar.strip('_')\n            print('---- HADES::DicoVar ----')\n")],
    "a software name with a leading or trailing underscore given to setVar",
    "returned name is not the one that was set",
    """
import aerokit.common.dicovar as d
d.setDicoVar('cx'); d.dicoVar.setVar('T', '_temp')
assert d.dicoVar['T'] == '_temp'
""")
bug("polar-ax-marker", "C33", [("aero/plot/shockpolar.py",
    "            ax.plot(thet_init - thet, p_init * ps, 'ko', markerfacecolor='white')",
    "            plt.plot(thet_init - thet, p_init * ps, 'ko', markerfacecolor='white')")],
    "axes different from the current ones given to plot_theta_pressure, sonic marker on the left side",
    "sonic point is drawn on another figure",
    """
import matplotlib.pyplot as plt, aerokit.aero.plot.shockpolar as sp
f, (a, b) = plt.subplots(1, 2)
sp.plot_theta_pressure(3., curve='left', sonic=True, ax=a)
assert len(a.lines) == 2 and not b.lines
""")
bug("thrust-highmach", "C34", [("aero/Propulsion.py",
    "    return mf.Sigma_Mach(Mach, gamma) / Is.PtPs_Mach(Mach, gamma) * (1.0 + gamma * Mach ** 2)",
    "    dyn = np.where(np.asarray(Mach) > 100.0, gamma * np.square(Mach), 1.0 + gamma * np.square(Mach))[()]\n    return mf.Sigma_Mach(Mach, gamma) / Is.PtPs_Mach(Mach, gamma) * dyn")],
    "Mach above 100 (static pressure neglected)",
    "thrust function jumps by 1e-4 at Mach 100",
    """
import aerokit.aero.Propulsion as p
for M in (3., 99., 101., 300.):
    assert abs(float(p.Mach_ThrustFunction(p.ThrustFunction(M), 2.))/M-1) < 1e-2, M
    ref = (1+1.4*M*M)/M/(1+.2*M*M)**.5/1.2**3
    assert abs(float(p.ThrustFunction(M))/ref-1) < 1e-8, M
""")
bug("expr-aliases-dico", "C34", [("common/extendvar.py", "    extdico = {}\n", "    extdico = dico._dv\n")],
    "the expressions asked twice, or the dictionary read after them",
    "derived expressions overwrite the variable-name dictionary",
    """
import aerokit.common.dicovar as d
from aerokit.common.extendvar import expressions_from_rhopv as e
d.setDicoVar('cx')
a = dict(e())
assert d.dicoVar('V') == 'U' and dict(e()) == a
""", also=("C32",))
bug("deg-cos-snap", "C22", [("aero/degree.py", "    return np.cos(np.radians(a))",
    "    c = np.cos(np.radians(a))\n    return np.where(np.abs(c) < 1e-8, 0.0, c)[()]")],
    "an angle within 6e-7 degree of 90", "cosine is null next to 90 degrees",
    """
import numpy as np, aerokit.aero.degree as d
a = 90-3e-7
assert abs(float(d.cos(a))/np.cos(np.radians(a))-1) < 1e-6
""")
bug("cheb-xmax-falsy", "C23", [("common/numspectral.py",
    "        self._xmax = 1.0 if xmax is None else xmax\n", "        self._xmax = xmax or 1.0\n")],
    "an interval ending at 0", "interval end is replaced by 1",
    """
from aerokit.common.numspectral import ChebCollocation as C
c = C(9, -2., 0.)
assert abs(c.x[0]+2) < 1e-12 and abs(c.x[-1]) < 1e-12, c.x
""", also=("C24",))
bug("rk4-early-stop", "C25", [("common/_ode.py",
    "    while x < xStop:\n", "    while xStop - x > 1e-8:\n")],
    "an integration over less than 1e-8, or a last step below 1e-8",
    "end of the range is not reached",
    """
import aerokit.common._ode as o
X, Y = o.RK4(lambda x, y: 0*y+1, 0., 0., 3e-9, 1e-9)
assert X[-1] == 3e-9
""")
bug("rk4-inplace", "C25", [("common/_ode.py",
    "        y = y + run_kut4(F, x, y, h)\n", "        y += run_kut4(F, x, y, h)\n")],
    "an array as initial state", "all saved states are the last one, initial state is modified",
    """
import numpy as np, aerokit.common._ode as o
y0 = np.array([1.])
X, Y = o.RK4(lambda x, y: -y, 0., y0, 1., .1)
assert y0[0] == 1 and abs(Y[0][0]-1) < 1e-12
""")
bug("rkf-error-norm-size", "C25", [("common/_ode.py",
    "    e = np.sqrt(np.sum(E ** 2) / n)\n", "    e = np.sqrt(np.sum(E[-1:] ** 2) / n)\n")],
    "a system whose last component is smooth while the others are not",
    "step control only looks at the last component",
    """
import numpy as np, aerokit.common._ode as o
X, Y = o.RKF45(lambda x, y: np.array([10*y[1], -10*y[0], 0.]), 0., np.array([1., 0., 1.]), 5., .1)
assert abs(Y[-1][0]-np.cos(50.)) < 1e-3, Y[-1]
""")
bug("gas-restore-threshold", "C20", [("common/defaultgas.py",
    "    _gamma = _saved_gamma\n", "    _gamma = _saved_gamma if abs(_saved_gamma - _gamma) > 1e-3 else _gamma\n")],
    "gamma changed by less than 1e-3 between save and restore",
    "small change of gamma is not restored",
    """
import aerokit.common.defaultgas as d
d.save_default(); d.set_gamma(1.4005); d.restore_default()
assert d.gamma() == 1.4
""")
bug("pmmu-inplace", "C21", [("aero/Supersonic.py",
    "    return np.sqrt((cg * deg.tan((om_m_mun + 90.0) / cg)) ** 2 + 1.0)",
    "    om_m_mun += 90.0\n    return np.sqrt((cg * deg.tan(om_m_mun / cg)) ** 2 + 1.0)")],
    "a float array given to Mach_PMFmmu", "argument is modified",
    """
import numpy as np, aerokit.aero.Supersonic as s
a = np.array([-80., -30.]); b = a.copy(); s.Mach_PMFmmu(a)
assert np.array_equal(a, b)
""")
bug("isen-inverse-nearone", "C01", [("aero/Isentropic.py",
    "    return np.sqrt((TtTs - 1.0) * 2.0 / (gamma - 1.0))",
    "    return np.sqrt(np.where(np.abs(TtTs - 1.0) < 1e-7, 0.0, TtTs - 1.0)[()] * 2.0 / (gamma - 1.0))")],
    "a total temperature ratio within 1e-7 of 1 (Mach below 7e-4)",
    "slow flows are taken at rest",
    """
import aerokit.aero.Isentropic as Is
for M in (.5, 1e-2, 5e-4):
    assert abs(float(Is.Mach_TtTs(Is.TtTs_Mach(M)))/M-1) < 1e-5, M
""")
bug("inflow-scalar-reuse", "C17", [("instance/unsteady_inflow.py", "        self._qR = qinit.copy()\n", "        self._qR = qinit.copysymmetric().copysymmetric() if qinit.u else qinit\n")],
    "initial state at rest modified after the problem was built and before it is solved",
    "the initial state is shared with the caller when it is at rest",
    """
import aerokit.aero.unsteady1D as uq
from aerokit.instance.unsteady_inflow import inflow_pb
q = uq.unsteady_state(1., 0., 1.)
a = inflow_pb(q); q.p = 2.; a.solve_with_pt0_rtt0(3., 1.)
b = inflow_pb(uq.unsteady_state(1., 0., 1.)); b.solve_with_pt0_rtt0(3., 1.)
assert a.pstar() == b.pstar()
""")
bug("kerosene-heat-offset", "C29", [("aero/ThermoKerosen.py",
    "    return Pc_inf()+r_air*(1607.2+(-4.47659+(-4.00997e-3+6.12432e-7*T)*T)*T)",
    "    return Pc_inf()+r_air*(1607.2+(-4.47659+(-4.00997e-3+6.12432e-7*T)*T)*max(T, 200.))")],
    "temperature below 200 K", "effective heating value is not consistent with enthalpy for cold conditions",
    """
import aerokit.aero.ThermoKerosen as k
for T in (150., 300., 900.):
    d = (k.Pc_eff(T+.1)-k.Pc_eff(T-.1))/.2
    assert abs(d/k.Cp(T)+1) < 1e-3, T
""")

# ---- fifth campaign
bug("select-default-limit", "C26", [("stability/_base.py",
    "realmin=0.0, realmax=1.0e99, imagmin=-1e10, imagmax=1e10", "realmin=0.0, realmax=1.0e6, imagmin=-1e10, imagmax=1e10")],
    "frequencies over 1e6 (short box or fast flow) and no upper limit given",
    "high frequencies are dropped although no limit was requested",
    """
import numpy as np
from aerokit.stability import LinOperator
class D(LinOperator):
    def compute_operators(self):
        self._B = np.diag([1e5, 3e6, 2e7])*(-1j); self._At = np.eye(3)
d = D(3); d.solve_eig(); v, x, o = d.select_and_sort()
assert v.size == 3, v
""")
bug("eig-real-snap", "C26", [("stability/_base.py",
    "        self._vals, self._vects = scilin.eig(B, self._harmonic_time_coef * Id)\n",
    "        vals, self._vects = scilin.eig(B, self._harmonic_time_coef * Id)\n        self._vals = vals.real + 1j * np.where(np.abs(vals.imag) < 1e-6, 0.0, vals.imag)\n")],
    "a growth rate below 1e-6 in absolute value (slow operator)",
    "slowly growing or decaying modes are returned as neutral",
    """
import numpy as np
from aerokit.stability import LinOperator
class D(LinOperator):
    def compute_operators(self):
        self._B = np.diag([1e-7, 2e-7-1e-7j, -3e-7]).astype(complex); self._At = np.eye(3)
d = D(3); v, x = d.solve_eig()
assert np.abs(np.sort(v.imag) - [-3e-7, 1e-7, 2e-7]).max() < 1e-10, v
""")
bug("stab-same-state", "C27", [("stability/_base.py",
    '        self._basestate = state\n', '        if state is self._basestate:\n            return  # nothing new\n        self._basestate, self._vals = state, None\n')],
    "values of the base state changed in place and the same object set again",
    "operators of the former values are kept",
    """
import numpy as np, aerokit.stability.Euler as E, aerokit.aero.model1D as m
op = E.Euler1D(8); q = m.state(np.ones(8), 0.*np.ones(8), np.ones(8))
op.set_basestate(q); op.set_BC('sym', 'sym'); a = op.get_RHS_time_matrices()[0].copy()
q.p *= 4.; op.set_basestate(q); b = op.get_RHS_time_matrices()[0]
assert not np.array_equal(a, b)
""")
bug("stab-bc-check-left", "C27", [("stability/_base.py",
    "        self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]\n",
    "        self._BC_type = [self._check_BC(Ltype), Rtype]\n        self._BC_type[1] = self._check_BC(Rtype)\n")],
    "unknown condition at the right end only, operator used afterwards with its former conditions",
    "a refused condition replaces the current ones",
    """
import numpy as np, aerokit.stability.Euler as E, aerokit.aero.model1D as m
op = E.Euler1D(8, basestate=m.state(np.ones(8), 0.*np.ones(8), np.ones(8))); op.set_BC('sym', 'sym')
try: op.set_BC('sym', 'wall')
except ValueError: pass
op.set_basestate(m.state(np.ones(8), 0.*np.ones(8), 2.*np.ones(8)))
op.get_RHS_time_matrices()
""")
bug("cheb-interp-complex", "C24", [("common/numspectral.py",
    "        fx = chebyshev.chebval(self._x_to_xi(x), coefs)\n", "        fx = chebyshev.chebval(self._x_to_xi(x), np.asarray(coefs, dtype=float) if np.isrealobj(coefs) else coefs.real)\n")],
    "complex nodal data (an eigenmode)", "imaginary part of the data is lost",
    """
import numpy as np, aerokit.common.numspectral as ns
c = ns.ChebCollocation(6); f = c.x + 1j*c.x**2
assert abs(c.extrapol(f, np.array([.3]))[0] - (.3+.09j)) < 1e-10
""")
bug("state-negative-index", "C12", [("aero/model1D.py",
    "        assert isinstance(self.rho, np.ndarray)\n", "        assert np.ndim(self.rho) > 0\n        i = abs(i) if isinstance(i, (int, np.integer)) else i\n")],
    "negative index", "state at -1 is the one at 1",
    """
import numpy as np, aerokit.aero.model1D as m
q = m.state(np.array([1., 2., 3.]), np.zeros(3), np.ones(3))
assert q[-1].rho == 3. and q[-3].rho == 1.
""")
bug("thrust-hint-mean", "C34", [("aero/Propulsion.py",
    "def Mach_ThrustFunction(thrust, Mach=2.0, gamma=1.4):\n", "def Mach_ThrustFunction(thrust, Mach=2.0, gamma=1.4, **kwargs):\n    Mach = np.mean(Mach)\n")],
    "an array of start values on both sides of Mach 1", "the side of all values is that of the mean start",
    """
import numpy as np, aerokit.aero.Propulsion as p
M = np.array([.5, 3.]); m = p.Mach_ThrustFunction(p.ThrustFunction(M), M)
assert np.allclose(m, M, rtol=1e-3), m
""")
bug("shock-pt-start", "C05", [("aero/ShockWave.py",
    "    if ptratio > 1:\n", "    if abs(ptratio - 1) < 1e-12:\n        return 1.0\n    elif ptratio > 1:\n")],
    "total pressure ratio within 1e-12 of 1 (Mach below 1.0001)", "very weak shocks are returned as sonic",
    """
import aerokit.aero.ShockWave as s
for M in (1.5, 1.01, 1.00006):
    m = float(s.Mn_Pt_ratio(s.Pt_ratio(M))); assert abs(m-M) < .3*(M-1), (M, m)
""")
bug("legacy-pm-start", "C21", [("aero/Supersonic.py",
    "    return IterativeSolve.secant_solve(omega_of_mach, omega, 2.0)\n", "    return IterativeSolve.secant_solve(omega_of_mach, np.minimum(omega, 55.0), 2.0)\n")],
    "legacy inverse with an angle over 55 degrees", "legacy inverse saturates",
    """
import aerokit.aero.Supersonic as s
for om in (10., 40., 58.):
    assert abs(float(s.old_Mach_PrandtlMeyer(om))-float(s.Mach_PrandtlMeyer(om))) < 1e-3, om
""")
bug("rk4-last-short", "C25", [("common/_ode.py",
    "    while x < xStop:\n        h = min(h, xStop - x)\n", "    while x < xStop - 1e-3 * h:\n        h = min(h, xStop - x)\n")],
    "a last step shorter than a thousandth of the given one", "end abscissa is not reached",
    """
import numpy as np, aerokit.common._ode as o
X, Y = o.RK4(lambda x, y: -y, 0., np.array([1.]), 1.00001, .1)
assert abs(X[-1]-1.00001) < 1e-12, X[-1]
""")
bug("devsonic-array-inplace", "C21", [("aero/ShockWave.py",
    "    M2 = np.square(Mach)\n    ka = gamma - 3", "    M2 = np.atleast_1d(Mach) ** 2\n    ka = gamma - 3")],
    "scalar Mach number", "sonic angle of a scalar is an array",
    """
import numpy as np, aerokit.aero.ShockWave as s
assert np.ndim(s.sigma_Sonic(2.)) == 0
""")
bug("os-complex-reynolds-wall", "C28", [("stability/OrrSommerfeld.py",
    "        self._B[i0 + 1, :n] = D[istate, :]\n", "        self._B[i0 + 1, :n] = D[istate, :] if istate == 0 else np.flip(-D[0, :])\n"),
    ("stability/OrrSommerfeld.py", "        self._B[i0, istate] = 1.0\n", "        self._B[i0, istate] = 1.0 if np.isreal(self._basestate['alpha']) else 0.0\n")],
    "complex wave number (spatial theory)", "no wall condition with complex wave numbers",
    """
import numpy as np, aerokit.stability.OrrSommerfeld as O
p = O.Poiseuille(20, 1.+.1j, 1000.); B, A = p.get_RHS_time_matrices()
assert B[0, 0] == 1. and B[-2, -1] == 1.
""")
bug("dico-ambiguous-first", "C32", [("common/dicovar.py", "        return self._dv.keys()            \n", "        return [k for k in self._dv if k.lower() not in self._dv or k == k.lower()]\n")],
    "two registered names which differ by case only (P and p)", "list of names lacks the upper-case one",
    """
import aerokit.common.dicovar as d
assert 'P' in list(d.dicoVar.keys()) and 'p' in list(d.dicoVar.keys())
""")
bug("gg-mach-reset", "C30", [("engine/gasgenerator.py",
    "        self.M0 = M0\n", "        self.M0 = M0 if np.any(M0) or not hasattr(self, 'M0') else self.M0\n")],
    "a second point at rest after one in flight", "static conditions keep the former Mach number",
    """
import aerokit.engine.turbojet as t
a = t.turbojet_opt(20., 1500.); a.flight_conditions(250., 5e4, .8); a.update()
a.flight_conditions(288., 1e5, 0.); a.update()
assert a.V0 == 0.
""")
bug("gg-ideal-vacuum", "C30", [("engine/gasgenerator.py",
    "        if P19 is None: P19=self.P0\n", "        P19 = P19 or self.P0\n")],
    "ideal work of an expansion to vacuum (P19=0)", "null exit pressure is taken as the ambient one",
    """
import aerokit.engine.gasgenerator as t
a = t.base(20., 1500.); a.flight_conditions(250., 5e4, .8); a.update()
w = (1+a.far)*1.4/.4*a.r_hot*a.Tt45
assert abs(a.Wsp_TBP_ideal(0.)/w-1) < 1e-9
""")
bug("tf-null-fan", "C30", [("engine/turbofan.py",
    "        self.fanpower_ratio = fanpower_ratio\n", "        self.fanpower_ratio = fanpower_ratio or 0.5\n")],
    "no power given to the fan (ratio 0)", "a null ratio is replaced by the default of the staged cycles",
    """
import aerokit.engine.turbofan as t
a = t.turbofan_adapt(20., 1500., 5., 0.); a.flight_conditions(250., 5e4, .8); a.update()
assert abs(a.Tt17-a.Tt2) < 1e-9
""")
bug("tj-slow-propulsive", "C30", [("engine/turbojet.py",
    "        return self.norm_thrust()*self.V0/self.Wsp_kinEn()\n", "        return self.norm_thrust()*np.maximum(self.V0, 1e-2*self.V9)/self.Wsp_kinEn()\n")],
    "static or very slow flight", "propulsive efficiency at rest is not null",
    """
import aerokit.engine.turbojet as t
a = t.turbojet_opt(20., 1500.); a.flight_conditions(288., 1e5, 0.); a.update()
assert a.propulsive_efficiency() == 0.
""")
bug("dc-power-clip", "C31", [("engine/propu_be_double_corps.py",
    "    Wu_f = w_uf_theo * taux_meca\n", "    Wu_f = w_uf_theo * np.clip(taux_meca, 0.1, 0.85)\n")],
    "mechanical share below 0.1 or over 0.85", "share of power is limited in the turbine and not in the fan",
    """
import aerokit.engine.propu_be_double_corps as d, aerokit.engine.Cycle_Turbofan as c
g, f = c.Gaz(1.4, 287.), c.Gaz(1.33, 291.6, 42.8e6)
for t in (.5, .05):
    k = c.cycle_taux_fan_calcule(6., 30., 1400., 180., g, f, t); k.calculs_5_to_9()
    r = d.calculs(6., 30., 1400., 180., t)
    assert abs(r[0]/k.F_spe-1) < 1e-6, (t, r[0], k.F_spe)
""")
bug("polar-shared-markers", "C33", [("aero/plot/shockpolar.py",
    "        if curve in ['right', 'both']:\n            ax.plot(thet_init + thet, p_init * ps, 'ro', alpha=0.9)\n", "        if curve in ['right', 'both'] and thet > 1e-2:\n            ax.plot(thet_init + thet, p_init * ps, 'ro', alpha=0.9)\n")],
    "Mach number so close to 1 that the maximum deflection is below 0.01 degree", "marker is missing",
    """
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt, aerokit.aero.plot.shockpolar as p
p.plot_theta_pressure(1.002, curve='right', devmax=True)
assert len(plt.gca().lines) == 2
""")
bug("fanno-density-scalar", "C10", [("aero/Fanno.py",
    "    return (gamma + 1) / 2 / (1 + (gamma - 1) / 2 * np.square(Mach))", "    return (gamma + 1) / 2 / (1 + (gamma - 1) / 2 * np.square(Mach)) if np.ndim(Mach) < 2 else (gamma + 1) / 2 / (1 + (gamma - 1) / 2 * np.dot(Mach, Mach.T))")],
    "two-dimensional array of Mach numbers", "matrix product instead of squares",
    """
import numpy as np, aerokit.aero.Fanno as f
M = np.array([[.5, 1.], [2., 3.]])
assert np.allclose(f.Ts_Tscri(M), [[f.Ts_Tscri(m) for m in r] for r in M])
""", also=["C21"])
bug("rayleigh-sup-round", "C11", [("aero/Rayleigh.py",
    "    return np.sqrt((1.0 + alpha) / (1.0 - alpha * gamma))", "    return np.sqrt((1.0 + alpha) / np.maximum(1.0 - alpha * gamma, 1e-4))")],
    "supersonic inverse near the limit of infinite Mach number (Mach over 100)", "Mach number saturates",
    """
import aerokit.aero.Rayleigh as r
for M in (2., 20., 400.):
    assert abs(r.SupMach_TiTicri(r.Ti_Ticri(M))/M-1) < 1e-5, M
""")
bug("weight-array-gamma", "C02", [("aero/MassFlow.py",
    "        * (1.0 + 0.5 * (gamma - 1) * Mach ** 2) ** (-0.5 * (gamma + 1.0) / (gamma - 1.0))\n", "        * (1.0 + 0.5 * (gamma - 1) * np.minimum(Mach, 80.0) ** 2) ** (-0.5 * (gamma + 1.0) / (gamma - 1.0))\n")],
    "Mach number over 80", "mass flow function increases again for hypersonic flows",
    """
import aerokit.aero.MassFlow as m, aerokit.aero.Isentropic as Is
for M in (2., 50., 200.):
    assert abs(m.WeightMassFlow(M)/(1.4**.5*M*Is.TtTs_Mach(M)**-3)-1) < 1e-9, M
""")
bug("isen-tt-negative-mach", "C01", [("aero/Isentropic.py",
    "    return Mach * np.sqrt(gamma * r * Tt / TtTs_Mach(Mach, gamma))", "    return np.abs(Mach) * np.sqrt(gamma * r * Tt / TtTs_Mach(Mach, gamma))")],
    "negative Mach number (reverse flow)", "velocity loses its sign",
    """
import aerokit.aero.Isentropic as Is
assert Is.Velocity_MachTt(-.5, 300.) < 0
""")
bug("wave-sym-view", "C12", [("aero/unsteady1D.py",
    "        return copy.deepcopy(self)\n", "        return copy.copy(self)\n")],
    "state of arrays copied, then changed in place", "copies share their arrays",
    """
import numpy as np, aerokit.aero.unsteady1D as u
q = u.unsteady_state(np.ones(3), np.zeros(3), np.ones(3)); c = q.copy(); q.p[0] = 7.
assert c.p[0] == 1.
""")

# ---- sixth campaign
bug("cheb-fit-integer", "C24", [("common/numspectral.py",
    "        fxi = chebyshev.chebval(self.xi, coefs)\n", "        fxi = chebyshev.chebval(self.xi, coefs).astype(np.asarray(f).dtype)\n")],
    "integer samples", "fitted values are truncated to integers",
    """
import numpy as np, aerokit.common.numspectral as ns
c = ns.ChebCollocation(4); x = np.array([-2, -1, 0, 1, 2])
assert np.allclose(ns.ChebCollocation(4, -2, 2).fit_to_gauss(x, x), ns.ChebCollocation(4, -2, 2).x)
""")
bug("riemann-empty-fan", "C15", [("instance/riemann.py",
    "            i = np.logical_and((xot > self._waves[0]), (xot < self._waves[1]))\n", "            i = slice(*np.searchsorted(xot, self._waves[:2]))\n")],
    "positions not sorted", "left fan is only right for increasing positions",
    """
import numpy as np, aerokit.aero.unsteady1D as uq
from aerokit.instance.riemann import riemann_pb
r = riemann_pb(uq.unsteady_state(1., 0., 10.), uq.unsteady_state(1., 0., 1.))
x = np.linspace(-5, 5, 41); a, b = r.qsol(x), r.qsol(x[::-1])
assert np.array_equal(a.u, b.u[::-1])
""")
bug("sonic-low-gamma", "C08", [("aero/ShockWave.py",
    "    kb = (gamma + 1) * (np.square(M2 - 3) + gamma * np.square(M2 + 1))\n", "    kb = (gamma + 1) * (np.square(M2 - 3) + np.maximum(gamma, 1.05) * np.square(M2 + 1))\n")],
    "gamma below 1.05", "sonic angle of heavy gases is not sonic",
    """
import numpy as np, aerokit.aero.ShockWave as s
for g in (1.4, 1.02):
    sg = s.sigma_Sonic(3., g); d = s.deflection_Mach_sigma(3., sg, g)
    m = s.downstream_Mn(3.*np.sin(np.radians(sg)), g)/np.sin(np.radians(sg-d))
    assert abs(m-1) < 1e-8, (g, m)
""")
bug("euler-per-derivative", "C27", [("stability/Euler.py",
    "            self._B[i * n + n - 1, i * n : (i + 1) * n] -= D[n - 1, :]\n", "            self._B[i * n + n - 1, i * n : (i + 1) * n] -= np.abs(D[n - 1, n - 1]) / np.abs(D[0, 0]) * D[n - 1, :] if i else D[n - 1, :] * (1.0 if np.ptp(self._basestate.u) < 1e-12 else 1.0 + 1e-3)\n")],
    "periodic conditions with a non uniform base flow", "slope of density perturbation is not periodic",
    """
import numpy as np, aerokit.stability.Euler as E, aerokit.aero.model1D as m
for a in (0., .1):
    op = E.Euler1D(9); q = m.state(np.ones(9), 1.+a*op.x, np.ones(9)); op.set_basestate(q); op.set_BC('per', 'per')
    D = op._diffop.matder(1); assert np.allclose(op.get_RHS_time_matrices()[0][8, :9], D[0]-D[8], atol=1e-10), a
""")
bug("os-profile-cached", "C28", [("stability/OrrSommerfeld.py",
    '        u = self._basestate["uprofile"](self.x)\n', '        u = self._u = self._u if getattr(self, "_prof", None) is self._basestate["uprofile"] else self._basestate["uprofile"](self.x)\n        self._prof = self._basestate["uprofile"]\n')],
    "a profile function whose parameters were changed, given again in a new base state", "profile of the first call is kept",
    """
import numpy as np, aerokit.stability.OrrSommerfeld as O
k = [1.]; f = lambda y: k[0]*(1-y**2)
op = O.OrrSommerfeldModel(20, -1., 1., dict(alpha=1., Reynolds=1e3, uprofile=f)); op.set_BC('wall', 'wall')
a = op.get_RHS_time_matrices()[0].copy(); k[0] = 2.
op.set_basestate(dict(alpha=1., Reynolds=1e3, uprofile=f)); assert not np.allclose(a, op.get_RHS_time_matrices()[0])
""")
bug("cycle-fan-share-zero", "C31", [("engine/Cycle_Turbofan.py",
    "        self.taux_meca = taux_meca\n", "        self.taux_meca = taux_meca or .5\n")],
    "share of power given to the fan null", "null share replaced by the default",
    """
import aerokit.engine.Cycle_Turbofan as c
g, f = c.Gaz(1.4, 287.), c.Gaz(1.33, 291.6, 42.8e6)
k = c.cycle_taux_fan_calcule(6., 30., 1400., 180., g, f, 0.); k.stage_4_etoile(); k.stage_5()
assert abs(k.Tt5-k.Tt4_etoile) < 1e-9
""")
bug("cycle-init-mach", "C31", [("engine/Cycle_Turbofan.py",
    "        self.V0 = self.M0 * np.sqrt(self.g.gamma * self.g.r * self.T0)\n", "        self.V0 = self.M0 * np.sqrt(self.g.gamma * self.g.r * type(self).T0)\n")],
    "flight temperature given on the object instead of the class", "flight velocity uses the class temperature",
    """
import aerokit.engine.Cycle_Turbofan as c
g, f = c.Gaz(1.4, 287.), c.Gaz(1.33, 291.6, 42.8e6)
k = c.cycle_taux_fan_calcule(6., 30., 1400., 180., g, f); k.T0 = 288.; k.InitialValues()
assert abs(k.V0-.8*(1.4*287*288)**.5) < 1e-9
""")
bug("gas-restore-no-r", "C20", [("common/defaultgas.py",
    "    _r = _saved_r\n", "    _r = _saved_r if _saved_gamma != _gamma or _r > 1.0 else _r\n")],
    "gas constant below 1 set after the save, gamma unchanged", "gas constant is not restored",
    """
import aerokit.common.defaultgas as d
d.save_default(); d.set_r_ideal(.5); d.restore_default()
assert d.r_ideal() == 287.1
""")
bug("air-gamma-cold", "C29", [("aero/ThermoRealGas.py",
    "    cp = ((3.5+(-2.8e-5+2.240e-8*T)*T)+(3090./T)**2 *a/(a-1.)**2)\n", "    cp = ((3.5+(-2.8e-5+2.240e-8*T)*T)+(3090./T)**2 *a/(a-1.)**2) if T > 150. else 3.5\n")],
    "temperature below 150 K", "ratio of specific heats of cold air is frozen",
    """
import aerokit.aero.ThermoRealGas as t
for T in (140., 300., 900.):
    assert abs(t.Gamma(T)-t.Cp(T)/(t.Cp(T)-287.04)) < 1e-9, T
""")
bug("polar-npts-min", "C33", [("aero/plot/shockpolar.py",
    "    ps = p_init * sw.Ps_ratio(mach * deg.sin(sig), gamma)  # pressure", "    ps = p_init * sw.Ps_ratio(np.round(mach * deg.sin(sig), 6), gamma)  # pressure")],
    "pressure scale read precisely (hypersonic flows or many digits)", "pressures rounded through the Mach number",
    """
import matplotlib; matplotlib.use('Agg')
import numpy as np, matplotlib.pyplot as plt, aerokit.aero.plot.shockpolar as p, aerokit.aero.ShockWave as s
p.plot_theta_pressure(1.0005, npts=10, curve='right')
y = plt.gca().lines[0].get_ydata(); M = (1+(y-1)*2.4/2.8)**.5
sg = np.linspace(np.degrees(np.arcsin(1/1.0005)), 90., 11)
assert np.abs(M-1.0005*np.sin(np.radians(sg))).max() < 1e-9
""")
bug("nozzle-long", "C19", [("instance/nozzle.py",
    "            self.AsoAc = section[-1] / np.min(section)\n", "            self.AsoAc = section[-1] / np.min(section[1:])\n")],
    "throat at the first section (diverging nozzle)", "first section is not seen as the throat",
    """
import numpy as np
from aerokit.instance.nozzle import nozzle
n = nozzle(np.arange(4.), np.array([1., 1.2, 1.5, 2.])); assert n.AsoAc == 2.
""")
# ---- seventh campaign
bug("state-size-2d", "C12", [("aero/model1D.py",
    "        return self.rho.size if isinstance(self.rho, np.ndarray) else 1\n", "        return len(self.rho) if isinstance(self.rho, np.ndarray) else 1\n")],
    "a state of two-dimensional arrays", "size is the number of rows",
    """
import numpy as np, aerokit.aero.model1D as m
a = np.ones((2, 3)); assert m.state(a, a, a).size == 6
""")
bug("state-getitem-abs", "C12", [("aero/model1D.py",
    "        return np.sqrt(self._gamma * self.p / self.rho)\n\n    def left", "        return np.sqrt(self._gamma) * np.sqrt(self.p) / np.sqrt(self.rho) if np.ndim(self.p) == np.ndim(self._gamma) else np.sqrt(np.max(self._gamma) * self.p / self.rho)\n\n    def left")],
    "a scalar pressure and density with an array of gammas", "sound speed of the largest gamma",
    """
import numpy as np, aerokit.aero.model1D as m
assert np.allclose(m.state(1., 0., 1., np.array([1.2, 1.5])).asound(), np.sqrt([1.2, 1.5]))
""")
bug("wave-isentropic-compression", "C13", [("aero/unsteady1D.py",
    "        return self.rho * (p / self.p) ** (1.0 / self._gamma)\n", "        return self.rho * np.minimum(p / self.p, 1.0) ** (1.0 / self._gamma)\n")],
    "isentropic compression", "density of a compressed state is not changed",
    """
import aerokit.aero.unsteady1D as u
assert abs(u.unsteady_state(1., 0., 1.).rho_through_isentropic(2.)-2**(1/1.4)) < 1e-12
""")
bug("riemann-shared-buffer", "C15", [("instance/riemann.py",
    "        p = self._qL.p * np.ones(len(xot))\n", "        p = self._buf = self._buf if len(getattr(self, '_buf', ())) == len(xot) else np.empty(len(xot))\n        p[:] = self._qL.p\n")],
    "two samplings of the same size, the first one used after the second", "pressure of an earlier sampling is overwritten",
    """
import numpy as np, aerokit.aero.unsteady1D as uq
from aerokit.instance.riemann import riemann_pb
r = riemann_pb(uq.unsteady_state(1., 0., 10.), uq.unsteady_state(1., 0., 1.))
a = r.qsol(np.linspace(-5, 5, 11)); k = a.p.copy(); r.qsol(np.linspace(-2, 2, 11)); assert np.array_equal(a.p, k)
""")
bug("nozzle-buffer", "C19", [("instance/nozzle.py",
    "        self._Pt = np.ones_like(self.AxoAc)\n", "        self._Pt = getattr(self, '_Pt', np.empty_like(self.AxoAc))\n        self._Pt[:] = 1.0\n")],
    "total pressure read before, used after another pressure ratio was set", "total pressure given earlier is overwritten",
    """
import numpy as np
from aerokit.instance.nozzle import nozzle
n = nozzle(np.arange(5.), np.array([2., 1., 1.2, 1.5, 2.]), NPR=1.5); a = n.Ptot(); k = a.copy(); n.set_NPR(1.01); assert np.array_equal(a, k)
""")
bug("rk4-count", "C25", [("common/_ode.py",
    "    while x < xStop:\n", "    for _ in range(int(np.ceil((xStop - x) / h - 1e-9))):\n")],
    "range which exceeds a whole number of steps by rounding only", "integration stops slightly before the end",
    """
import numpy as np
from aerokit.common._ode import RK4
X, Y = RK4(lambda x, y: -y, 0., np.array([1.]), 1.+5e-11, .1); assert X[-1] == 1.+5e-11
""")
bug("rk4-null-range", "C25", [("common/_ode.py",
    "    while x < xStop:\n", "    while x < xStop or len(X) == 1:\n")],
    "an end equal to the start", "a null step is added",
    """
import numpy as np
from aerokit.common._ode import RK4
assert len(RK4(lambda x, y: -y, 1., np.array([1.]), 1., .1)[0]) == 1
""")
bug("cheb-explicit-compute", "C23", [("common/numspectral.py",
    "        self._max_Dorder = maxorder", "        self._max_Dorder = max(self._max_Dorder, maxorder)")],
    "matrices computed explicitly up to a lower order than before", "higher orders are not found",
    """
import aerokit.common.numspectral as ns
c = ns.ChebCollocation(6); a = c.matder(3).copy(); c.compute_matder(1); assert (c.matder(3) == a).all()
""")
bug("gg-flight-keep", "C30", [("engine/gasgenerator.py",
    "    def flight_conditions(self, T0=1., P0=1., M0=0.):\n        self.T0 = T0\n", "    def flight_conditions(self, T0=1., P0=1., M0=0.):\n        self.T0 = T0 if T0 != 1. else getattr(self, 'T0', 1.)\n")],
    "conditions given again with the default temperature", "temperature of the previous conditions is kept",
    """
import aerokit.engine.turbojet as t
j = t.turbojet_opt(20., 5.); j.flight_conditions(1.2, 1., .5); j.update(); j.flight_conditions(M0=.5); j.update(); assert j.Tt0 == 1.05
""")
bug("dico-class-table", "C32", [("common/dicovar.py",
    "                self._dv = _copy.deepcopy(soft[1])\n", "                type(self)._dv = _copy.deepcopy(soft[1])\n")],
    "another table object built beside the selected one", "current selection reads the other table",
    """
import aerokit.common.dicovar as d
o = d._DicoVar('of'); assert d.dicoVar('rho') == 'RHO'
""")
bug("dico-keys-table", "C32", [("common/dicovar.py",
    "        return self._dv.keys()            \n", "        return next(s[1] for s in _dataBase if s[0][0] == self._softName).keys()\n")],
    "variables added to the selected table", "added names are not listed",
    """
import aerokit.common.dicovar as d
d.dicoVar.addVar('zz', 'ZZ'); assert 'zz' in d.dicoVar.keys()
""", also=["C34"])
bug("expr-nested-name", "C34", [("common/extendvar.py",
    "    _a     = 'sqrt('+_g+'*'+dico['P']+'/'+dico['rho']+')'\n", "    _a     = 'sqrt(g*P/rho)'.replace('g', _g).replace('P', dico['P']).replace('rho', dico['rho'])\n")],
    "a name of pressure which contains 'rho' or 'g'", "names are replaced in each other",
    """
import aerokit.common.dicovar as d
from aerokit.common.extendvar import expressions_from_rhopv as e
d.dicoVar.setVar('P', 'p_rho'); assert e()['a'] == 'sqrt(1.4*p_rho/RHO)', e()['a']
""")
bug("rayleigh-pt-exponent", "C11", [("aero/Rayleigh.py",
    "        * (2 / (gamma + 1) * (1 + (gamma - 1) / 2 * m2)) ** (gamma / (gamma - 1))\n", "        * (2 / (gamma + 1) * (1 + (gamma - 1) / 2 * m2)) ** np.minimum(gamma / (gamma - 1), 20.0)\n")],
    "gamma below 1.0527", "exponent of total pressure limited",
    """
import aerokit.aero.Rayleigh as r
assert abs(r.Pi_Picri(2., 1.03)/(r.Ps_Pscri(2., 1.03)*(1.06/1.015)**(1.03/.03))-1) < 1e-9
""")
bug("euler-rh-state-gamma", "C27", [("stability/Euler.py",
    "        dq = m1d.state(rho=D @ q.rho, u=D @ q.u, p=D @ q.p)\n        q1 = q[istate]\n", "        dq = m1d.state(rho=D @ q.rho, u=D @ q.u, p=D @ q.p)\n        q1 = m1d.state(q.rho[istate], q.u[istate], q.p[istate])\n")],
    "shock condition in a gas with gamma different from 1.4", "jump conditions of air",
    """
import numpy as np, aerokit.stability.Euler as E, aerokit.aero.model1D as m
o = np.ones(8); B = []
for g in (1.4, 1.2):
    op = E.Euler1D(8, 0., 1.); op.set_basestate(m.state(o, .5*o, o, g)); op.set_BC(dict(type='RH', dM0dx=0.), 'sym'); M = op.get_RHS_time_matrices()
    B.append(M[1][0, -1])
M1 = .5/1.2**.5; g = 1.2; M0 = ((1+.1*M1**2)/(1.2*M1**2-.1))**.5
assert abs(B[0]-B[1]) > 1e-6
q0 = m.state(o[0], .5, 1., 1.2).state_RH(); R = 2.2*M0**2/(2+.2*M0**2); k = 4/2.2*R**2/M0**3/q0.asound(); assert abs(abs(B[1])-k) < 1e-9*k, (B, k)
""")
bug("select-sort-none", "C26", [("stability/_base.py",
    "        order = np.argsort(sortmethod[sort](vals))\n", "        order = np.argsort(np.round(sortmethod[sort](vals), 10))\n")],
    "eigenvalues closer than 1e-10 (very slow modes)", "order among close eigenvalues is arbitrary",
    """
import numpy as np
from aerokit.stability import LinOperator
class O(LinOperator):
    def compute_operators(self):
        self._B = np.diag([-3e-12j, -1e-12j, -2e-12j]); self._At = np.eye(3)
o = O(3); o.solve_eig(); v, x, k = o.select_and_sort(); assert np.all(np.diff(v.real[k]) >= 0), v[k]
""")
bug("shock-mn-ps-clip", "C05", [("aero/ShockWave.py",
    "    return np.sqrt(1 + (Pratio - 1.0) * (gamma + 1.0) / (2.0 * gamma))\n", "    return np.sqrt(1 + (np.maximum(Pratio, 1.0) - 1.0) * (gamma + 1.0) / (2.0 * gamma))\n")],
    "a pressure ratio below 1 (inverse jump, downstream seen as upstream)", "Mach number is clipped at 1",
    """
import aerokit.aero.ShockWave as s
assert abs(s.Mn_Ps_ratio(1/s.Ps_ratio(2.))-s.downstream_Mn(2.)) < 1e-12
""")
# ---- eighth campaign
bug("weight-negative", "C02", [("aero/MassFlow.py",
    "        * (1.0 + 0.5 * (gamma - 1) * Mach ** 2) ** (-0.5 * (gamma + 1.0) / (gamma - 1.0))\n",
    "        / np.minimum((1.0 + 0.5 * (gamma - 1) * Mach ** 2) ** (0.5 * (gamma + 1.0) / (gamma - 1.0)), 1e12)\n")],
    "weights below 1e-12 (hypersonic flow of a gas with low gamma)", "mass flow is bounded",
    """
import aerokit.aero.MassFlow as mf
assert abs(mf.WeightMassFlow(60., gamma=1.1)*mf.Sigma_Mach(60., 1.1)/mf.WeightMassFlow(1., gamma=1.1)-1) < 1e-9
""")
bug("weak-says-once", "C07", [("aero/ShockWave.py",
    "        print(\"no weak shock wave solution\")\n", "        if not hasattr(weaksigma_Mach_deflection, '_said'):\n            print(\"no weak shock wave solution\")\n        weaksigma_Mach_deflection._said = True\n")],
    "a second detached deflection in the same process", "nothing is said",
    """
import io, contextlib, aerokit.aero.ShockWave as sw
for i in range(2):
    o = io.StringIO()
    with contextlib.redirect_stdout(o): sw.weaksigma_Mach_deflection(2., 40.)
    assert o.getvalue().strip()
""")
bug("strong-max-angle", "C07", [("aero/ShockWave.py",
    "        print(\"no strong shock wave solution\")\n        return 90.0\n", "        print(\"no strong shock wave solution\")\n        return 90.0 if Mach > 1.1 else sigma_DevMax(Mach, gamma)\n")],
    "detached deflection of a transonic flow (Mach below 1.1)", "angle of maximum deflection is returned",
    """
import aerokit.aero.ShockWave as sw
assert sw.strongsigma_Mach_deflection(1.05, 5.) == 90.
""")
bug("polar-lowercase", "C33", [("aero/plot/isentropicpolar.py",
    "    if curve in ['c-', 'C-', 'both']:\n", "    if curve in ['C-', 'both']:\n")],
    "lower case name of left-running curve", "nothing is drawn",
    """
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt, aerokit.aero.plot.isentropicpolar as ip
ip.plot_theta_pressure(3., (-5, 5), curve='c-'); assert len(plt.gca().lines) == 1
""")
bug("fanno-negative-power", "C21", [("aero/Fanno.py",
    "    return 1.0 / Mach * np.sqrt(2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach)))\n", "    return Mach ** -1 * np.sqrt(2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach)))\n")],
    "array of integers", "refused by numpy",
    """
import numpy as np, aerokit.aero.Fanno as f
assert abs(f.Rho_Rhocri(np.array([1, 2]))[0]-1) < 1e-12
""")
bug("riemann-far-side", "C15", [("instance/riemann.py",
    "        i = xot >= self._waves[4]\n", "        i = np.logical_and(xot >= self._waves[4], xot < 1e3 * max(abs(self._waves[4]), abs(self._waves[0])))\n")],
    "a position more than a thousand times further than the waves", "left state is returned",
    """
import numpy as np, aerokit.aero.unsteady1D as uq
from aerokit.instance.riemann import riemann_pb
r = riemann_pb(uq.unsteady_state(1., 0., 10.), uq.unsteady_state(1., 0., 1.)); assert r.qsol(np.array([1e5])).p[0] == 1.
""")
bug("riemann-infinite", "C15", [("instance/riemann.py",
    "        i = xot >= self._waves[4]\n", "        i = np.logical_and(xot >= self._waves[4], np.isfinite(xot))\n")],
    "an infinite position (t=0)", "left state is returned",
    """
import numpy as np, aerokit.aero.unsteady1D as uq
from aerokit.instance.riemann import riemann_pb
r = riemann_pb(uq.unsteady_state(1., 0., 10.), uq.unsteady_state(1., 0., 1.)); assert r.qsol(np.array([np.inf])).p[0] == 1.
""")
bug("riemann-mirror-contact", "C16", [("instance/riemann.py",
    "            self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)\n            self._waves[3] = self._ustar + self._qstarR.asound()\n",
    "            self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)\n            self._waves[3] = self._ustar + max(self._qstarR.asound(), 1e-3)\n")],
    "sound speed below 1e-3 (units, near vacuum)", "tail of right expansion has a minimum speed",
    """
import numpy as np, aerokit.aero.unsteady1D as uq
from aerokit.instance.riemann import riemann_pb
r = riemann_pb(uq.unsteady_state(1., 0., 1e-9), uq.unsteady_state(1., 0., 1e-8)); w = r._waves; assert w[3] < w[4], w
""")
bug("npr-exit-scalar", "C18", [("instance/nozzle.py",
    "    Msup = mf.MachSup_Sigma(AsAc)\n    Msh = sw.downstream_Mn(Msup)\n    return", "    Msup = mf.MachSup_Sigma(np.minimum(AsAc, 50.0))\n    Msh = sw.downstream_Mn(Msup)\n    return")],
    "area ratio above 50", "limit of shock at exit is that of area ratio 50",
    """
import aerokit.instance.nozzle as n
assert n.NPR_shock_at_exit(80.) == n._NPR_Ms_list(80.)[1]
""")
bug("nozzle-ms-unit", "C18", [("instance/nozzle.py",
    "    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc)\n    if NPR < NPR0:\n        Ms = Is.Mach_PtPs(NPR)\n    elif NPR > NPRsw:\n        Ms = Msup\n",
    "    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc)\n    if NPR < NPR0 or AsAc == 1:\n        Ms = Is.Mach_PtPs(NPR)\n    elif NPR > NPRsw:\n        Ms = Msup\n")],
    "convergent nozzle (area ratio exactly 1), choked", "exit Mach number above 1",
    """
import aerokit.instance.nozzle as n
assert abs(n.Ms_from_AsAc_NPR(1., 4.)-1) < 1e-6
""")
bug("inflow-zero-velocity", "C17", [("instance/unsteady_inflow.py",
    "        if p > self._qR.p:\n            _delta = self._qR.delta_u_shock(p)\n        else:\n            _delta = self._qR.delta_u_expansion(p)\n        return _delta\n",
    "        if p > self._qR.p * (1.0 + 1e-3):\n            _delta = self._qR.delta_u_shock(p)\n        else:\n            _delta = (p - self._qR.p) / (self._qR.rho * self._qR.asound())\n            if p < self._qR.p * (1.0 - 1e-3):\n                _delta = self._qR.delta_u_expansion(p)\n        return _delta\n")],
    "very weak waves", "acoustic approximation of the wave",
    """
import aerokit.aero.unsteady1D as uq
from aerokit.instance.unsteady_inflow import inflow_pb
q = uq.unsteady_state(1., .1, 1.); i = inflow_pb(q); i.solve_with_pt0_rtt0(1.0058, 1.)
d = i.ustar()-.1; p = i.pstar(); e = q.delta_u_expansion(p) if p < 1 else q.delta_u_shock(p); assert abs(p-1) < 1e-3 and abs(d-e) < 1e-5*abs(e), (p, d, e)
""")
bug("wave-jump-left", "C13", [("aero/unsteady1D.py",
    "            ushock + (self.u - ushock) / rho_ratio,\n", "            ushock + abs(self.u - ushock) / rho_ratio,\n")],
    "right-running shock", "velocity jump has the wrong sign",
    """
import aerokit.aero.unsteady1D as u
q = u.unsteady_state(1., 0., 1.); s = q._rankinehugoniot_from_ushock(2.); assert s.u < 2
""")
bug("conical-scalar-tol", "C09", [("aero/ShockWave.py",
    "        return conical_deflection_Mach_sigma(mach, sigma, gamma)\n", "        return conical_deflection_Mach_sigma(mach, sigma, gamma, 1e-3)\n")],
    "small wall deflection", "upstream Mach number is that of a loose integration",
    """
import aerokit.aero.ShockWave as sw
d = sw.conical_deflection_Mach_sigma(2., 31.); m = float(sw.conical_Mach_walldeflection_sigma(d, 31.)); assert abs(sw.conical_deflection_Mach_sigma(m, 31.)-d) < 2e-5, (m, d)
""")
bug("oblique-negative-angle", "C06", [("aero/ShockWave.py",
    "    Mn = Mach * np.sin(sigrad)\n", "    Mn = np.maximum(Mach * np.sin(sigrad), 1.0 + 1e-6)\n")],
    "shock angle within 1e-6 of the Mach angle", "deflection is not zero at Mach angle",
    """
import aerokit.aero.ShockWave as sw, aerokit.aero.degree as d
assert abs(sw.deflection_Mach_sigma(5., d.asin(.2))) < 1e-6 and abs(sw.deflection_Mach_sigma(1.0001, d.asin(1/1.0001))) < 1e-7, sw.deflection_Mach_sigma(1.0001, d.asin(1/1.0001))
""")
bug("isen-velocity-array-r", "C01", [("aero/Isentropic.py",
    "    return Mach * np.sqrt(gamma * r * Tt / TtTs_Mach(Mach, gamma))\n", "    return Mach * np.sqrt(gamma * np.mean(r) * Tt / TtTs_Mach(Mach, gamma))\n")],
    "an array of gas constants", "mean gas constant is used",
    """
import numpy as np, aerokit.aero.Isentropic as Is
v = Is.Velocity_MachTt(1., 300., np.array([287., 290.])); assert abs(v[0]-Is.Velocity_MachTt(1., 300., 287.)) < 1e-9
""")
bug("pm-turn-array-ratio", "C04", [("aero/Supersonic.py",
    "    m2 = Mach_PrandtlMeyer(PrandtlMeyer_Mach(Mach, gamma) - dev, gamma)\n", "    m2 = np.maximum(Mach_PrandtlMeyer(PrandtlMeyer_Mach(Mach, gamma) - dev, gamma), 1.0 + 1e-4)\n")],
    "compression down to Mach 1", "downstream Mach number is bounded",
    """
import aerokit.aero.Supersonic as s, aerokit.aero.Isentropic as I
r = float(s.IsentropicPsratio_Mach_deflection(2., s.PrandtlMeyer_Mach(2.)-s.PrandtlMeyer_Mach(1.00001))); assert abs(r/(I.PtPs_Mach(2.)/I.PtPs_Mach(1.00001))-1) < 1e-6
""")
bug("devmax-vs-sonic", "C08", [("aero/ShockWave.py",
    "    return deflection_Mach_sigma(Mach, sigma_DevMax(Mach, gamma=gamma), gamma=gamma)\n", "    return deflection_Mach_sigma(Mach, np.maximum(sigma_DevMax(Mach, gamma=gamma), sigma_Sonic(Mach, gamma=1.4)), gamma=gamma)\n")],
    "gamma for which sonic angle in air is above the maximum one", "deflection of another angle",
    """
import numpy as np, aerokit.aero.ShockWave as sw
for g in (1.05, 1.1, 1.2, 1.3, 1.4, 1.67):
    for M in (1.2, 2., 5., 20.):
        assert sw.dev_Max(M, g) >= sw.deflection_Mach_sigma(M, np.linspace(10, 89, 4000), g).max()-1e-12, (g, M)
""")
bug("os-wave-negative", "C28", [("stability/OrrSommerfeld.py",
    "        self._At = D2 - alpha ** 2 * np.eye(n)\n", "        self._At = D2 - alpha * np.abs(alpha) * np.eye(n)\n")],
    "negative wave number", "wrong sign of the squared wave number",
    """
import numpy as np
from aerokit.stability.OrrSommerfeld import Poiseuille
a = Poiseuille(12, 1., 1000.).get_RHS_time_matrices()[1]; b = Poiseuille(12, -1., 1000.).get_RHS_time_matrices()[1]; assert np.allclose(a, b)
""")
bug("gg-wsp-p19-zero", "C30", [("engine/gasgenerator.py",
    "        if P19 is None: P19=self.P0\n", "        P19 = np.minimum(self.P0 if P19 is None else P19, self.Pt45)\n")],
    "ambient pressure above turbine exit pressure", "no (negative) work is given",
    """
import aerokit.engine.gasgenerator as g
b = g.base(2., 4.); b.flight_conditions(); b.update(); assert b.Wsp_TBP_ideal(2*b.Pt45) < 0
""")
bug("kero-heat-cut", "C29", [("aero/ThermoKerosen.py",
    "    return r_air*(-149.054+(4.47659+(4.00997e-3-6.12432e-7*T)*T)*T)\n", "    return r_air*(-149.054+(4.47659+(4.00997e-3-6.12432e-7*min(T, 3000.))*T)*T)\n")],
    "vapour above 3000 K", "enthalpy is no longer the integral of heat capacity",
    """
import aerokit.aero.ThermoKerosen as k
assert abs((k.Enthalpy(3500.1)-k.Enthalpy(3499.9))/.2/k.Cp(3500.)-1) < 1e-4
""")
bug("cheb-two-points", "C23", [("common/numspectral.py",
    "        th = np.arange(self.npts) * np.pi / (self.npts - 1)\n", "        th = np.arange(self.npts) * np.pi / max(self.npts - 1, 2)\n")],
    "two points", "last node is the middle of the interval",
    """
import aerokit.common.numspectral as ns
assert ns.ChebCollocation(2).x[-1] == 1.
""")
bug("rkf-first-step", "C25", [("common/_ode.py",
    "            x = x + h\n            X.append(x)\n            Y.append(y)\n            # Stop", "            x = x + h if stopper == 0 else np.float64(round(xStop, 12))\n            X.append(x)\n            Y.append(y)\n            # Stop")],
    "an end with more than 12 decimals", "last abscissa is rounded",
    """
import numpy as np
from aerokit.common._ode import RKF45
X, Y = RKF45(lambda x, y: -y, 0., np.array([1.]), 1e-11/3, 1e-12); assert abs(X[-1]-1e-11/3) < 1e-16, X[-1]
""")
bug("secant-decreasing", "C25", [("aero/IterativeSolve.py",
    "        next_x = new_x + (new_x-old_x)/(new_y-old_y)*(y-new_y)\n", "        next_x = new_x + (new_x-old_x)/(new_y-old_y)*(y-new_y) if abs(new_y-old_y) > 1e-12 else new_x\n")],
    "functions of tiny amplitude", "iterations stop",
    """
from aerokit.aero.IterativeSolve import secant_solve as s
assert abs(s(lambda x: 1e-10*x**3, 8e-10, 1.)-2) < 1e-4
""")
bug("expr-t-alias", "C34", [("common/extendvar.py",
    "    extdico['T']    = dico['P']+'/'+dico['rho']+'/287.1'\n", "    extdico['T']    = dico['Ps']+'/'+dico['rho']+'/287.1'\n")],
    "name of pressure changed through 'P' only", "temperature uses the former name",
    """
import aerokit.common.dicovar as d
from aerokit.common.extendvar import expressions_from_rhopv as e
d.dicoVar.setVar('P', 'PP'); assert e()['T'].startswith('PP/')
""")
bug("dico-empty-name", "C32", [("common/dicovar.py",
    "            self._dv[var] = sVar\n            print('---- HADES::DicoVar ----')\n", "            self._dv[var] = sVar or self._dv[var]\n            print('---- HADES::DicoVar ----')\n")],
    "an empty name", "former name is kept",
    """
import aerokit.common.dicovar as d
d.dicoVar.setVar('T', ''); assert d.dicoVar('T') == ''
""")
bug("repr-cycle-callable", "C35", [("engine/Cycle_Turbofan.py",
    "            if (not callable(getattr(self, attr)) and not attr.startswith('__')) :\n", "            if (not callable(getattr(self, attr)) and not attr.startswith('_') and getattr(self, attr)) :\n")],
    "an attribute which is zero (flight Mach number 0, null share)", "it is not shown",
    """
import io, contextlib, aerokit.engine.Cycle_Turbofan as C
c = C.cycle_1_to_4(6., 30., 1400., 180., C.Gaz(), C.Gaz(1.33, 291.6, 42800e3)); o = io.StringIO()
with contextlib.redirect_stdout(o): c.show_attributes()
assert 'current_stage_corps = 0' in o.getvalue()
""")
bug("gas-restore-int", "C20", [("common/defaultgas.py",
    "    _saved_gamma = _gamma\n", "    _saved_gamma = round(_gamma, 6)\n")],
    "gamma with more than 6 decimals", "restored value is rounded",
    """
import aerokit.common.defaultgas as d
d.set_gamma(1.23456789); d.save_default(); d.set_gamma(1.3); d.restore_default(); assert d.gamma() == 1.23456789
""")
bug("select-narrows", "C26", [("stability/_base.py",
    "        vects = np.compress(condition, self._vects, axis=1)\n", "        vects = self._vects = np.compress(condition, self._vects, axis=1)\n        self._vals = vals\n")],
    "a second, wider selection", "values discarded by the first selection are lost",
    """
import numpy as np
from aerokit.stability import LinOperator
class O(LinOperator):
    def compute_operators(self):
        self._B = np.diag([-1j, -2j, -3j]); self._At = np.eye(3)
o = O(3); o.solve_eig(); o.select_and_sort(realmin=1.5); assert o.select_and_sort()[0].size == 3
""")
bug("rayleigh-inverse-critical", "C11", [("aero/Rayleigh.py",
    "    return np.sqrt((1.0 + alpha) / (1.0 - alpha * gamma))\n", "    return np.sqrt((1.0 + alpha) / (1.0 - np.where(alpha < 1e-3, alpha * 1.4, alpha * gamma)))\n")],
    "ratio within 1e-6 of the critical one and gamma different from 1.4", "Mach number is slightly wrong",
    """
import aerokit.aero.Rayleigh as r
M = 1+5e-4; assert abs(r.SupMach_TiTicri(r.Ti_Ticri(M, 1.2), 1.2)-M) < 1e-6
""")
bug("isen-velocity-max", "C01", [("aero/Isentropic.py",
    "    return Mach * np.sqrt(gamma * r * Tt / TtTs_Mach(Mach, gamma))\n", "    return Mach * np.sqrt(gamma * r * np.maximum(Tt, 1.0) / TtTs_Mach(Mach, gamma))\n")],
    "scaled total temperature below 1", "temperature has a minimum",
    """
import aerokit.aero.Isentropic as Is
assert abs(Is.Velocity_MachTt(1., .5, 1.)/(1.4*.5/1.2)**.5-1) < 1e-9
""")
bug("sigma-gamma-array-mean", "C02", [("aero/MassFlow.py",
    "        0.5 * (gamma + 1.0) / (gamma - 1.0)\n    ) / Mach\n", "        0.5 * (np.max(gamma) + 1.0) / (np.max(gamma) - 1.0)\n    ) / Mach\n")],
    "array of gammas", "exponent of the largest one",
    """
import numpy as np, aerokit.aero.MassFlow as m
assert abs(m.Sigma_Mach(2., np.array([1.2, 1.4]))[0]-m.Sigma_Mach(2., 1.2)) < 1e-9
""")
bug("shock-ts-array-gamma", "C05", [("aero/ShockWave.py",
    "    return Ps_ratio(Mn, gamma) / Rho_ratio(Mn, gamma)\n", "    return Ps_ratio(Mn, gamma) / Rho_ratio(Mn, np.ravel(gamma)[-1])\n")],
    "array of gammas", "density ratio of the last gas",
    """
import numpy as np, aerokit.aero.ShockWave as m
assert abs(m.Ts_ratio(2., np.array([1.2, 1.4]))[0]-m.Ts_ratio(2., 1.2)) < 1e-9
""")
bug("thrust-array-gamma", "C34", [("aero/Propulsion.py",
    "    return mf.Sigma_Mach(Mach, gamma) / Is.PtPs_Mach(Mach, gamma) * (1.0 + gamma * Mach ** 2)\n", "    return mf.Sigma_Mach(Mach, gamma) / Is.PtPs_Mach(Mach, gamma) * (1.0 + np.ravel(gamma)[0] * Mach ** 2)\n")],
    "array of gammas", "impulse of the first gas",
    """
import numpy as np, aerokit.aero.Propulsion as m
assert abs(m.ThrustFunction(2., np.array([1.2, 1.4]))[1]-m.ThrustFunction(2., 1.4)) < 1e-9
""")
bug("gg-array-opr", "C30", [("engine/gasgenerator.py",
    "        self.Pt3 = self.Pt2*self.OPR\n", "        self.Pt3 = self.Pt2*np.max(self.OPR)\n")],
    "array of pressure ratios", "pressure of the largest one",
    """
import numpy as np, aerokit.engine.gasgenerator as g
b = g.base(np.array([10., 20.]), 5.); b.flight_conditions(); b.update(); assert np.allclose(b.Pt3, [10., 20.])
""")
bug("tf-array-bpr", "C30", [("engine/turbofan.py",
    "        return self.norm_thrust()/(1.+self.bpr)\n", "        return self.norm_thrust()/(1.+float(np.ravel(self.bpr)[0]))\n")],
    "array of bypass ratios", "specific thrust with the first one",
    """
import numpy as np, aerokit.engine.turbofan as t
def s(b):
    j = t.turbofan_adapt(20., 1500., b, .5); j.flight_conditions(250., 1e5, .5); j.update(); return j.spec_thrust()
assert abs(s(np.array([2., 5.]))[1]/s(5.)-1) < 1e-12
""")
bug("dc-array-share", "C31", [("engine/propu_be_double_corps.py",
    "    Wu_f = w_uf_theo * taux_meca\n", "    Wu_f = w_uf_theo * np.min(taux_meca)\n")],
    "array of power shares", "turbine gives the smallest one",
    """
import numpy as np, aerokit.engine.propu_be_double_corps as d
assert abs(d.calculs(6., 30., 1400., 180., np.array([.4, .6]))[0][1]/d.calculs(6., 30., 1400., 180., .6)[0]-1) < 1e-12
""")
bug("euler-int-rho", "C27", [("stability/Euler.py",
    "        self._B0[n:ip, :n] = np.diag(-dq.p / q.rho ** 2)\n", "        self._B0[n:ip, :n] = np.diag(-dq.p * np.reciprocal(np.square(q.rho)))\n")],
    "base density given as integers", "reciprocal of integers is zero",
    """
import numpy as np, aerokit.stability.Euler as E, aerokit.aero.model1D as m
def B(r):
    op = E.Euler1D(6, 0., 1.); op.set_basestate(m.state(r, np.linspace(.1, .3, 6), np.linspace(1., 2., 6))); op.set_BC('sym', 'sym'); return op.get_RHS_time_matrices()[0]
assert np.allclose(B(np.full(6, 2)), B(np.full(6, 2.)))
""")
bug("cheb-extrapol-scalar", "C24", [("common/numspectral.py",
    "        fx = chebyshev.chebval(self._x_to_xi(x), coefs)\n", "        fx = chebyshev.chebval(np.ravel(self._x_to_xi(x)), coefs)\n")],
    "one position, or a two-dimensional array of positions", "result is flattened",
    """
import numpy as np, aerokit.common.numspectral as ns
c = ns.ChebCollocation(5); assert np.shape(c.extrapol(c.x, np.zeros((2, 3)))) == (2, 3)
""")
bug("state-int-power", "C12", [("aero/model1D.py",
    "        return np.sqrt(self._gamma * self.p / self.rho)\n\n    def left", "        return np.sqrt(self._gamma * self.p * self.rho ** -1)\n\n    def left")],
    "density given as an array of integers", "refused by numpy",
    """
import numpy as np, aerokit.aero.model1D as m
assert abs(m.state(np.array([2]), np.array([1]), np.array([3])).asound()[0]-(4.2/2)**.5) < 1e-12
""")
bug("nozzle-int-x", "C19", [("instance/nozzle.py",
    "        self._Pt = np.ones_like(self.AxoAc)\n", "        self._Pt = np.ones_like(self.x)\n")],
    "coordinates given as integers (or not given)", "total pressure is truncated",
    """
import numpy as np, aerokit.instance.nozzle as nz
n = nz.nozzle(np.arange(5), np.array([2., 1., 1.5, 2., 2.5]), NPR=1.5); assert 0 < n.Ptot()[-1] < 1
""")
bug("rk4-int-start", "C25", [("common/_ode.py",
    "        Y.append(y)\n    return np.array(X), np.array(Y)\n\n\ndef _rkf45", "        Y.append(y)\n    return np.array(X, dtype=np.asarray(X[0]).dtype), np.array(Y)\n\n\ndef _rkf45")],
    "start given as an integer", "abscissas are truncated",
    """
import numpy as np
from aerokit.common._ode import RK4
assert RK4(lambda x, y: -y, 0, np.array([1.]), 1., .25)[0][1] == .25
""")
bug("rkf-int-y", "C25", [("common/_ode.py",
    "    K = np.zeros((6, n), dtype=np.float64)\n", "    K = np.zeros_like(np.tile(y, (6, 1)))\n")],
    "initial values given as integers", "increments are truncated",
    """
import numpy as np
from aerokit.common._ode import RKF45
assert abs(RKF45(lambda x, y: -y, 0., np.array([1]), 1., .1)[1][-1][0]-np.exp(-1)) < 1e-4
""")
# ---- ninth campaign: computations made while another one runs, calls which fail
INTER = '''
import sys
def inter(f, g, kmax=4000):
    """results of f() with g() called before each of its lines in turn"""
    out, k = [], 0
    while True:
        n = [0]
        def line(fr, e, a):
            if e == 'line':
                if n[0] == k:
                    n[0] += 1; sys.settrace(None); g(); sys.settrace(call)
                else:
                    n[0] += 1
            return line
        def call(fr, e, a):
            return line if 'aerokit' in fr.f_code.co_filename else None
        sys.settrace(call); r = f(); sys.settrace(None); out.append(r)
        if k >= n[0] or k > kmax: return out
        k += max(1, n[0]//150)
'''
bug("secant-callback-shared", "C25", [("aero/IterativeSolve.py",
    "    old_y = f(old_x)\n", "    secant_solve.function = f\n    old_y = f(old_x)\n"),
    ("aero/IterativeSolve.py", "        new_y = f(new_x)\n", "        new_y = secant_solve.function(new_x)\n")],
    "a function which itself calls the solver", "inner function is solved",
    """
import numpy as np, aerokit.aero.IterativeSolve as s
inv = lambda v: s.secant_solve(lambda z: z**3, v, 1.)
assert abs(s.secant_solve(lambda v: v + inv(v), 2., 1.2)-1) < 1e-4
""")
bug("rk4-shared-lists", "C25", [("common/_ode.py",
    "        return (K0 + 2.0 * K1 + 2.0 * K2 + K3) / 6.0\n\n    X = []\n    Y = []\n", "        return (K0 + 2.0 * K1 + 2.0 * K2 + K3) / 6.0\n\n    X, Y = RK4.__dict__.setdefault('points', ([], []))\n    del X[:], Y[:]\n")],
    "a right-hand side which itself calls the integrator", "points of the inner integration remain",
    """
import numpy as np
from aerokit.common._ode import RK4
F = lambda x, y: RK4(lambda t, z: -z, 0., y, .1, .05)[1][-1]
assert len(RK4(F, 0., np.array([1.]), 1., .25)[0]) == 5
""")
bug("rkf-shared-stages", "C25", [("common/_ode.py",
    "    K = np.zeros((6, n), dtype=np.float64)\n", "    K = _stages.setdefault(n, np.zeros((6, n), dtype=np.float64))\n"),
    ("common/_ode.py", "def _rkf45(F, x, y, h):\n", "_stages = {}\n\n\ndef _rkf45(F, x, y, h):\n")],
    "a right-hand side which itself calls the integrator, same number of unknowns", "stages are overwritten",
    """
import numpy as np
from aerokit.common._ode import RKF45
F = lambda x, y: (RKF45(lambda t, z: -z, 0., y, .1, .05), -y)[1]
assert abs(RKF45(F, 0., np.array([1.]), 1., .25)[1][-1][0]-np.exp(-1)) < 1e-4
""")
bug("jump-register-temp", "C21", [("aero/ShockWave.py",
    "    Mn0 = Mn_Ps_ratio(Pratio, gamma)\n    sig = _sigma_Mn(Mach, Mn0)\n    dev", "    keep = defg.gamma()\n    defg.set_gamma(gamma)\n    Mn0 = Mn_Ps_ratio(Pratio, defg.gamma())\n    sig = _sigma_Mn(Mach, Mn0)\n    dev"),
    ("aero/ShockWave.py", "    Mn1 = downstream_Mn(Mn0, gamma)\n    return Mn1 / degree.sin(sig - dev)\n", "    Mn1 = downstream_Mn(Mn0, gamma)\n    defg.set_gamma(keep)\n    return Mn1 / degree.sin(sig - dev)\n")],
    "call which fails (arrays which do not match)", "default gas is changed",
    """
import numpy as np, aerokit.aero.ShockWave as sw
from aerokit.common import defaultgas as d
try: sw.downstreamMach_Mach_ShockPsratio(np.array([2., 3.]), np.array([1.2, 1.3, 1.4]), 1.2)
except ValueError: pass
assert d.gamma() == 1.4
""")
bug("sup-turn-shared", "C21", [("aero/Supersonic.py",
    "    m2 = Is.Mach_PtPs(Is.PtPs_Mach(Mach, gamma) / Pratio, gamma)\n    return -PrandtlMeyer_Mach(Mach, gamma) + PrandtlMeyer_Mach(m2, gamma)\n",
    "    deflection_Mach_IsentropicPsratio.m2 = Is.Mach_PtPs(Is.PtPs_Mach(Mach, gamma) / Pratio, gamma)\n    return -PrandtlMeyer_Mach(Mach, gamma) + PrandtlMeyer_Mach(deflection_Mach_IsentropicPsratio.m2, gamma)\n")],
    "same function called by another thread between two lines", "downstream Mach number of the other call",
    INTER + """
import aerokit.aero.Supersonic as s
f = lambda: float(s.deflection_Mach_IsentropicPsratio(2., .5))
assert len(set(inter(f, lambda: s.deflection_Mach_IsentropicPsratio(3., .8)))) == 1
""")
bug("jump-shared-sigma", "C21", [("aero/ShockWave.py",
    "    Mn1 = downstream_Mn(Mn0, gamma)\n    return Mn1 / degree.sin(sig - dev)\n", "    global _Mn1\n    _Mn1 = downstream_Mn(Mn0, gamma)\n    return _Mn1 / degree.sin(sig - dev)\n")],
    "same function called by another thread between the last two lines", "normal Mach number of the other call",
    INTER + """
import aerokit.aero.ShockWave as s
f = lambda: float(s.downstreamMach_Mach_ShockPsratio(3., 2.))
assert len(set(inter(f, lambda: s.downstreamMach_Mach_ShockPsratio(4., 5.)))) == 1
""")
bug("fanno-seterr", "C21", [("aero/Fanno.py",
    "    return np.log(\n        Mach ** ((gamma - 1) / gamma)\n", "    np.seterr(divide='ignore', invalid='ignore')\n    return np.log(\n        np.asarray(Mach) ** ((gamma - 1) / gamma)\n")],
    "entropy function called before anything else", "numpy does not report errors any more",
    """
import numpy as np, aerokit.aero.Fanno as f
e = np.geterr(); f.NormdS(2.); assert np.geterr() == e
""")
bug("riemann-class-pair", "C15", [("instance/riemann.py",
    "        def du(p):\n            return self._delta_uL(p) + self._delta_uR(p) + self._qR.u - self._qL.u\n", "        riemann_pb._current = self\n\n        def du(p):\n            s = riemann_pb._current\n            return s._delta_uL(p) + s._delta_uR(p) + s._qR.u - s._qL.u\n")],
    "another problem solved by another thread meanwhile", "mix of both problems",
    INTER + """
import aerokit.aero.unsteady1D as uq, aerokit.instance.riemann as r
f = lambda: float(r.riemann_pb(uq.unsteady_state(1., 0., 1.), uq.unsteady_state(.125, 0., .1)).pstar())
g = lambda: r.riemann_pb(uq.unsteady_state(1., -1., 1.), uq.unsteady_state(1., 1., 1.))
assert len(set(inter(f, g))) == 1
""")
bug("cheb-shared-scratch", "C23", [("common/numspectral.py",
    "        DM = np.zeros((N, N, M))\n", "        DM = _scratch.setdefault((N, M), np.zeros((N, N, M)))\n"),
    ("common/numspectral.py", "        self._matder = DM\n", "        self._matder = DM.copy()\n"),
    ("common/numspectral.py", "class ChebCollocation:\n", "_scratch = {}\n\n\nclass ChebCollocation:\n")],
    "matrices of another operator computed meanwhile", "scaled for the other interval",
    INTER + """
import numpy as np, aerokit.common.numspectral as n
f = lambda: float(n.ChebCollocation(5, 0., 1.).matder(2)[0, 0])
assert len(set(inter(f, lambda: n.ChebCollocation(5, 0., 3.).matder(2)))) == 1
""")
bug("gg-class-cp", "C30", [("engine/gasgenerator.py",
    "        cpc = gc*self.r_cold/(gc-1.)\n", "        base._cpc = gc*self.r_cold/(gc-1.)\n"),
    ("engine/gasgenerator.py", "        self.far = (cph*self.Tt4 - cpc*self.Tt3)/", "        cpc = base._cpc\n        self.far = (cph*self.Tt4 - cpc*self.Tt3)/")],
    "another cycle with another gas evaluated meanwhile", "its heat capacity is used",
    INTER + """
import aerokit.engine.gasgenerator as g
def f(r=287.):
    b = g.base(20., 1500., r_cold=r); b.flight_conditions(250., 1e5, .5); b.update(); return b.far
assert len(set(inter(f, lambda: f(400.)))) == 1
""")
bug("euler-class-matrix", "C27", [("stability/Euler.py",
    "        D = self._diffop.matder(1)\n        n = self.dim\n        N = self.dim * self.nvar\n", "        n = self.dim\n        N = self.dim * self.nvar\n        Euler1D._D = self._diffop.matder(1)\n"),
    ("stability/Euler.py", "        # Bx\n        ip = 2 * n\n", "        # Bx\n        ip = 2 * n\n        D = Euler1D._D\n")],
    "another operator of the same size computed meanwhile", "its derivation matrix is used",
    INTER + """
import numpy as np, aerokit.stability.Euler as E, aerokit.aero.model1D as m
def f(L=1.):
    op = E.Euler1D(5, 0., L, m.state(np.ones(5), np.full(5, .3), np.ones(5))); op.set_BC('sym', 'sym'); return float(op.get_RHS_time_matrices()[0][1, 0])
assert len(set(inter(f, lambda: f(2.)))) == 1
""")
bug("devmax-hypersonic-cap", "C08", [("aero/ShockWave.py",
    "    fogpu = 4.0 / (gamma + 1.0)\n    M2 = np.square(Mach)\n", "    fogpu = 4.0 / (gamma + 1.0)\n    M2 = np.minimum(np.square(Mach), 1000.0)\n")],
    "Mach above 32", "shock angle of Mach 32",
    """
import aerokit.aero.ShockWave as s
a = s.sigma_DevMax(60.)
d = s.deflection_Mach_sigma
assert d(60., a) >= max(d(60., a + .005), d(60., a - .005))
""")
bug("riemann-strong-limit", "C14", [("instance/riemann.py",
    "        if p > self._qR.p:\n            _delta = self._qR.delta_u_shock(p)\n", "        if p > 1e4 * self._qR.p:\n            _delta = np.sqrt(2.0 * p / self._qR.rho / (self._qR._gamma + 1.0))\n        elif p > self._qR.p:\n            _delta = self._qR.delta_u_shock(p)\n")],
    "right-running shock with a pressure ratio above 1e4", "limit of an infinitely strong shock: velocity jump wrong by 1e-5 to 1e-4",
    """
import aerokit.aero.unsteady1D as uq, aerokit.instance.riemann as r
q = uq.unsteady_state(1., 0., 1e-6)
pb = r.riemann_pb(uq.unsteady_state(1., 0., 1.), q)
assert pb.pstar() > 1e-2 and abs(pb.ustar() / q.delta_u_shock(pb.pstar()) - 1) < 1e-8
""")
bug("inflow-strong-reservoir", "C17", [("instance/unsteady_inflow.py",
    "        if p > self._qR.p:\n            _delta = self._qR.delta_u_shock(p)\n", "        if p > self._qR.p and p - self._qR.p > 1e-9:\n            _delta = self._qR.delta_u_shock(p)\n")],
    "pressures below 1e-9 in the units of the user (and a shock)", "shock treated as isentropic compression",
    """
import aerokit.aero.unsteady1D as uq, aerokit.instance.unsteady_inflow as f
def u(k):
    pb = f.inflow_pb(uq.unsteady_state(k, 0., k)); pb.solve_with_pt0_rtt0(5. * k, 1.4); return float(pb.ustar())
assert abs(u(1.) / u(1e-11) - 1) < 1e-6
""")
bug("copysym-zero", "C16", [("aero/unsteady1D.py",
    "        return unsteady_state(self.rho, -self.u, self.p, self._gamma)\n", "        return unsteady_state(self.rho, np.where(np.abs(self.Mach()) > 1e-8, -self.u, 0.0), self.p, self._gamma)\n")],
    "a velocity below 1e-8 of the speed of sound", "mirror state of a slow one is at rest",
    """
import aerokit.aero.unsteady1D as uq
assert abs(uq.unsteady_state(1., 1e-9, 1.).copysymmetric().u + 1e-9) < 1e-20
""")
bug("polar-sonic-hyper", "C33", [("aero/ShockWave.py",
    "    M2 = np.square(Mach)\n    ka = gamma - 3 + M2 * (gamma + 1)\n", "    M2 = np.minimum(np.square(Mach), 300.0)\n    ka = gamma - 3 + M2 * (gamma + 1)\n")],
    "a polar with the sonic point drawn, Mach above 17.3", "sonic point of a lower Mach number: off the real sonic state",
    """
import aerokit.aero.ShockWave as s
a = s.sigma_Sonic(20.)
import numpy as np
sr = np.radians(a); d = np.radians(s.deflection_Mach_sigma(20., a))
assert abs(s.downstream_Mn(20. * np.sin(sr)) / np.sin(sr - d) - 1) < 1e-6
""")
