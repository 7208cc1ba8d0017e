// Independent reference of the two hyperelastic laws in extended precision: energy from the documented formula only;
// stress and elasticity by differentiation of closed forms derived from the principal invariants.
#pragma once
#include "sofa.h"
struct RefLaw {
    int kind; LD mu, l;   // 0 Neo-Hookean, 1 Saint-Venant-Kirchhoff
    RefLaw(int k, LD E, LD nu) : kind(k), mu(E / (2 * (1 + nu))), l(E * nu / ((1 + nu) * (1 - 2 * nu))) {}
    LD psi(const LM3 &F) const {
        LM3 C = F.transpose() * F; LD lnJ = std::log(std::fabs(F.determinant()));
        if (kind == 0) return mu / 2 * (C.trace() - 3) - mu * lnJ + l / 2 * lnJ * lnJ;
        LM3 G = (C - LM3::Identity()) / 2; return l / 2 * G.trace() * G.trace() + mu * (G * G).trace();
    }
    // first Piola-Kirchhoff stress dpsi/dF
    LM3 P(const LM3 &F) const {
        if (kind == 0) { LM3 Fit = F.inverse().transpose(); return mu * (F - Fit) + l * std::log(std::fabs(F.determinant())) * Fit; }
        LM3 G = (F.transpose() * F - LM3::Identity()) / 2; return F * (l * G.trace() * LM3::Identity() + 2 * mu * G);
    }
    LM3 S(const LM3 &F) const { return F.inverse() * P(F); }
    // directional derivative of P (exact)
    LM3 dP(const LM3 &F, const LM3 &H) const {
        if (kind == 0) { LM3 Fi = F.inverse(), Fit = Fi.transpose(); LM3 dFit = -(Fi * H * Fi).transpose(); LD lnJ = std::log(std::fabs(F.determinant())); return mu * (H - dFit) + l * (Fi * H).trace() * Fit + l * lnJ * dFit; }
        LM3 G = (F.transpose() * F - LM3::Identity()) / 2, dG = (H.transpose() * F + F.transpose() * H) / 2;
        return H * (l * G.trace() * LM3::Identity() + 2 * mu * G) + F * (l * dG.trace() * LM3::Identity() + 2 * mu * dG);
    }
};
inline LM3 lm3(const M3 &m) { LM3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r(i, j) = m[i][j]; return r; }
