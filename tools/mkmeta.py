"""Writes properties.jsonl and MANIFEST.json from the single list below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, text, why, files, mech, over=("inputs", "configurations"), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech,
                  over=list(over), technique=technique, note=note))


FIX = "Tests compare stored numbers on one or two example datasets (columbus, NAT, baltim) with one option setting; "

p("P01", "OLS solves least squares and reports the classical inference on it",
  "For every full-rank design, OLS returns the least-squares coefficients, residuals and fitted values, the sigma-squared "
  "of the chosen divisor, the matching covariance matrix, and R2, adjusted R2, F, log-likelihood, AIC and Schwarz values that follow from them. "
  "Constant columns are dropped with a warning without disturbing the remaining coefficients or their names. "
  "Estimates are equivariant under affine recoding of y and X, and weighted least squares equals OLS on root-weighted data.",
  "all full-rank X (1-6 regressors, dummies, integer, skewed, differently scaled, constant columns), y forms, divisor options",
  FIX + "the claim is for all designs, dtypes, divisors and constant-column placements.",
  ["spreg/ols.py", "spreg/diagnostics.py", "spreg/user_output.py", "spreg/utils.py"],
  [("BaseOLS", "spreg/ols.py"), ("RegressionPropsVM", "spreg/utils.py"), ("check_constant", "spreg/user_output.py")],
  technique="differential PBT against an independent QR least-squares reference + affine metamorphic relation")

p("P02", "White and HAC covariance matrices are the stated sandwich estimators",
  "Asking OLS, 2SLS or spatial 2SLS for white or HAC standard errors leaves the coefficients unchanged and returns the sandwich covariance built from the "
  "per-observation moments, with the documented small-sample factor for White, and with the kernel weights, including their diagonal, for HAC. "
  "HAC with a kernel that is an identity matrix equals uncorrected White.",
  "all designs x estimators (OLS, 2SLS, spatial lag 2SLS) x robust options x kernel bandwidths x divisor choices",
  FIX + "kernels, instrument counts and divisor choices are combined in only a handful of ways.",
  ["spreg/robust.py", "spreg/ols.py", "spreg/twosls.py"], [("robust_vm", "spreg/robust.py")],
  technique="differential PBT against a per-observation loop implementation of the sandwich")

p("P03", "Non-spatial regression diagnostics equal their definitions",
  "Jarque-Bera, Breusch-Pagan, Koenker-Bassett, White's test, the condition number, variance inflation factors, the likelihood-ratio test and the "
  "Durbin-Wu-Hausman test equal their textbook definitions computed from data and residuals, with the right degrees of freedom and p-values, "
  "both when called directly and as stored on a fitted model. "
  "Breusch-Pagan and Koenker-Bassett accept user-supplied heteroskedasticity variables.",
  "all designs incl. dummies (duplicate squared columns), multicollinear designs, user-supplied Z, model pairs for the LR test",
  FIX + "duplicate/constant auxiliary columns and user Z are never generated.",
  ["spreg/diagnostics.py", "spreg/output.py"], [("jarque_bera/breusch_pagan/koenker_bassett/white/vif/dwh/likratiotest", "spreg/diagnostics.py")],
  technique="differential PBT against auxiliary-regression definitions")

p("P04", "LM, robust LM, SARMA, Durbin and Moran tests equal their definitions",
  "For any OLS fit and any zero-diagonal weights matrix (symmetric or not, row-standardised or not), the Lagrange multiplier tests for lag, error, SARMA, WX and "
  "spatial Durbin, their robust versions, and Moran's I of the residuals with its expected value, variance and z-value equal the published formulas, "
  "with the right degrees of freedom and p-values. The identities joint = robust + one-directional hold, and the values stored by the spatial "
  "diagnostics option are the same as those of the stand-alone tests.",
  "all designs x all weights families x transforms",
  FIX + "only symmetric contiguity, row-standardised weights are tested.",
  ["spreg/diagnostics_sp.py", "spreg/output.py"], [("LMtests, MoranRes, spDcache", "spreg/diagnostics_sp.py")],
  technique="differential PBT against residual-maker algebra and exact quadratic-form moments")

p("P05", "2SLS is the projection instrumental-variables estimator",
  "For every identified model, 2SLS coefficients satisfy the first-order condition of projecting the regressors on all instruments, and the covariance, pseudo R2, "
  "z-statistics and reported names follow. With instruments equal to the endogenous variables it equals OLS; with exact identification it equals the IV estimator; "
  "it does not depend on the order or scale of the instruments.",
  "all identified designs with 1-3 endogenous variables, 1-6 instruments, robust options and divisors, input forms",
  FIX + "identification degree, instrument count and recoding are not varied.",
  ["spreg/twosls.py", "spreg/diagnostics.py"], [("BaseTSLS", "spreg/twosls.py")],
  technique="differential + metamorphic PBT")

p("P06", "Spatial lag 2SLS uses the documented instruments and spatial residuals",
  "The spatial two-stage model equals 2SLS with the spatial lag of y as an endogenous variable and the documented lags of the exogenous variables (and, when asked, of the extra instruments) "
  "as instruments, each under its reported name. Reduced-form predictions solve (I - rho W) yhat = xb whenever |rho| < 1, and are flagged otherwise. "
  "The Anselin-Kelejian and common-factor statistics equal their definitions.",
  "all designs x weights x instrument lag orders x SLX orders x extra endogenous variables x options",
  FIX + "lag orders above 1 combined with SLX terms and extra endogenous variables are not covered.",
  ["spreg/twosls_sp.py", "spreg/utils.py", "spreg/diagnostics_sp.py", "spreg/user_output.py"],
  [("set_endog", "spreg/utils.py"), ("sp_att", "spreg/utils.py"), ("akTest, comfac_test", "spreg/diagnostics_sp.py"), ("set_name_q_sp", "spreg/user_output.py")],
  technique="differential PBT: rebuild every instrument column from its reported name and refit")

p("P07", "SLX options equal adding the spatially lagged regressors by hand",
  "For every estimator that accepts it, asking for k spatial lags of (all or selected) exogenous variables gives the same estimates as passing those lagged columns explicitly, "
  "in the reported column order and with the reported names; asking for zero lags gives the non-SLX model.",
  "all estimators accepting slx_lags/slx_vars x lag orders x selections x weights",
  FIX + "selections and orders above one are covered for few estimators.",
  ["spreg/user_output.py", "spreg/utils.py", "spreg/ols.py", "spreg/twosls.py", "spreg/ml_lag.py", "spreg/ml_error.py", "spreg/error_sp.py"],
  [("flex_wx", "spreg/user_output.py"), ("get_lags", "spreg/utils.py")],
  technique="metamorphic PBT (manual augmentation) across estimator families")

p("P08", "ML spatial lag maximises the lag likelihood for every method",
  "For weights with spectral radius at most one, the maximum-likelihood spatial lag estimate is a maximum (the global one when there is only one) of the Gaussian spatial lag likelihood over (-1, 1), and the three Jacobian methods agree. "
  "The coefficients, sigma-squared, log-likelihood, information criteria, covariance matrix, residuals and reduced-form predictions reported are those implied by the estimate. "
  "The weights object passed in is left as it was.",
  "all designs x weights (symmetric/asymmetric, transforms) x methods full, LU, ord x SLX",
  FIX + "optimality is never checked, and the ord method is tested on one symmetric contiguity matrix.",
  ["spreg/ml_lag.py", "spreg/utils.py"], [("BaseML_Lag, lag_c_loglik*", "spreg/ml_lag.py")],
  technique="optimality-checking PBT: independent dense likelihood, profile optimum and analytic information matrix")

p("P09", "ML spatial error maximises the error likelihood for every method",
  "For weights with spectral radius at most one, the maximum-likelihood spatial error estimate is a maximum (the global one when there is only one) of the Gaussian spatial error likelihood over (-1, 1), and the three Jacobian methods agree. "
  "GLS coefficients, sigma-squared, log-likelihood, covariance matrix, residuals and filtered residuals reported are those implied by the estimate.",
  "all designs x weights (symmetric/asymmetric, transforms) x methods full, LU, ord x SLX",
  FIX + "optimality is never checked.",
  ["spreg/ml_error.py"], [("BaseML_Error, err_c_loglik*", "spreg/ml_error.py")],
  technique="optimality-checking PBT against an independent dense likelihood and information matrix")

p("P10", "Kelejian-Prucha 1998/99 GMM solves its moment conditions and filters by it",
  "The homoskedastic GMM spatial error models (exogenous, endogenous, with spatial lag) estimate lambda at a (local) minimum of the three Kelejian-Prucha moments over [-0.99, 0.99], and then report the (2S)LS fit "
  "on data filtered by that lambda: coefficients, covariance, residuals and filtered residuals, with lambda reported last. With no spatial weights effect (lambda=0 filter) they reduce to (2S)LS.",
  "all designs x weights x endogenous/instrument sets x instrument lag orders x SLX",
  FIX + "moment minimality is never checked.",
  ["spreg/error_sp.py", "spreg/utils.py"], [("_momentsGM_Error, optim_moments, get_spFilter", "spreg/error_sp.py, spreg/utils.py")],
  technique="optimality-checking PBT + conditional differential oracle")

p("P11", "Drukker-Egger-Prucha homoskedastic GMM obeys its moment equations",
  "The homoskedastic GMM error models (exogenous, endogenous, spatial lag) return a lambda at a (local) minimum of the (weighted) moment distance over [-0.99, 0.99] and coefficients from the filtered regression at the preceding lambda, "
  "for both moment-matrix variants and any iteration count, and a covariance matrix for coefficients and lambda equal to the published expression evaluated at the reported estimates.",
  "all designs x weights x A1 variants x iterations x endogenous sets",
  FIX + "iterations and A1 variants are tested at single points.",
  ["spreg/error_sp_hom.py"], [("moments_hom, get_vc_hom, get_omega_hom", "spreg/error_sp_hom.py")],
  technique="independent dense re-derivation, compared conditionally on the reported lambda")

p("P12", "Arraiz et al. heteroskedastic GMM obeys its moment equations",
  "The heteroskedasticity-robust GMM error models (exogenous, endogenous, spatial lag) return a lambda at a (local) minimum of the weighted moment distance over [-0.99, 0.99] and coefficients from the filtered regression at the preceding lambda, "
  "for either first-step choice and any iteration count, and a covariance matrix for coefficients and lambda equal to the published expression evaluated at the reported estimates. "
  "In the model with a spatial lag, rho is limited to [-0.9, 0.9].",
  "all designs (heteroskedastic included) x weights x step1c x iterations x endogenous sets",
  FIX + "step1c and iterations are tested at single points.",
  ["spreg/error_sp_het.py"], [("_moments2eqs, get_vc_het, get_psi_sigma, get_Omega_GS2SLS", "spreg/error_sp_het.py, spreg/utils.py")],
  technique="independent dense re-derivation, compared conditionally on the reported lambda")

p("P13", "The general GMM entry point and regimes switch select the right estimator",
  "The general GMM error class gives exactly the results of the specific estimator its arguments describe (error structure, presence of endogenous variables, spatial lag, regimes), and "
  "passing regimes to a non-regimes class gives exactly the results of the corresponding regimes class, with every supported option forwarded.",
  "all option combinations of the dispatching constructors",
  FIX + "a few dispatch combinations are tested.",
  ["spreg/error_sp.py", "spreg/ols.py", "spreg/twosls.py", "spreg/twosls_sp.py", "spreg/ml_lag.py", "spreg/ml_error.py"],
  [("GMM_Error.__init__", "spreg/error_sp.py"), ("regimes= branches", "estimator constructors")],
  over=("configurations", "inputs"), technique="differential PBT between entry points")

p("P14", "Regimes OLS and 2SLS equal the regime-wise and interacted regressions",
  "With all coefficients varying and separate errors, OLS and 2SLS by regimes equal separate estimations on each regime's observations; with a mix of global and regime-specific coefficients or a common error "
  "they equal the single regression on the interacted design. Regime labels, their order of appearance, dtype and the interleaving of observations do not matter, and residuals come back in the original observation order.",
  "all designs x regime labelings (2-4 regimes, string/int labels, unsorted) x constant/column regime options x robust options",
  FIX + "mixed global/local columns and unsorted labels are hardly sampled.",
  ["spreg/ols_regimes.py", "spreg/twosls_regimes.py", "spreg/regimes.py"], [("Regimes_Frame, regimeX_setup", "spreg/regimes.py")],
  technique="differential PBT against explicit interacted designs and per-regime fits")

p("P15", "Regimes spatial lag models equal their interacted or separated equivalents",
  "Spatial lag 2SLS by regimes equals the interacted 2SLS when the lag coefficient is common, the interacted one with regime-specific lags when it varies, and separate models on within-regime weights when lag and error are separated. "
  "Instruments, names, predictions and residuals follow the same rule, in original observation order.",
  "all designs x weights x regime labelings x lag/error separation x SLX",
  FIX + "few option combinations.",
  ["spreg/twosls_sp_regimes.py", "spreg/regimes.py"], [("GM_Lag_Regimes", "spreg/twosls_sp_regimes.py"), ("w_regimes_union, w_regime", "spreg/regimes.py")],
  technique="differential PBT against interacted designs and per-regime models")

p("P16", "Regimes GMM error models equal their interacted or separated equivalents",
  "With a common error process the GMM error models by regimes equal the same estimator with the regressors (spatially filtered, then) interacted by regime; with separate error processes they equal separate estimations using within-regime weights. "
  "Lambda is reported once or per regime accordingly.",
  "KP, homoskedastic and heteroskedastic error models (with endogenous variables and lag) x regime labelings x separation options",
  FIX + "few option combinations.",
  ["spreg/error_sp_regimes.py", "spreg/error_sp_hom_regimes.py", "spreg/error_sp_het_regimes.py"], [("*_Regimes classes", "spreg/error_sp*_regimes.py")],
  technique="differential PBT against interacted designs and per-regime models")

p("P17", "Regimes ML models equal their interacted or separated equivalents",
  "ML lag and ML error by regimes maximise the likelihood of the interacted model when the spatial parameter is common, and equal separate ML fits on within-regime weights when it is separated, with matching covariance matrices, log-likelihoods and ordering of residuals.",
  "designs x weights x regime labelings x separation options x Jacobian methods",
  FIX + "few option combinations.",
  ["spreg/ml_lag_regimes.py", "spreg/ml_error_regimes.py"], [("ML_Lag_Regimes, ML_Error_Regimes", "spreg/ml_*_regimes.py")],
  technique="differential / optimality PBT")

p("P18", "Chow and Wald tests for coefficient stability equal their definitions",
  "The regime-stability (Chow) tests, joint and per coefficient, and the general Wald test equal the quadratic form in the reported coefficients and covariance matrix with the right number of restrictions. "
  "Restriction and design builders for regimes produce exactly the block structure implied by the regime labels.",
  "all regime labelings x numbers of regimes/variables x restriction matrices",
  FIX + "three fixed regimes only.",
  ["spreg/regimes.py"], [("Chow, Wald, buildR, buildR1var, regimeX_setup, x2xsp", "spreg/regimes.py")],
  technique="differential PBT on restriction algebra and pairwise-equality oracles")

p("P19", "Pooled, fixed- and random-effects panels equal their transformed regressions",
  "Pooled OLS, the within estimator and the random-effects estimators equal least squares on stacked, demeaned and quasi-demeaned data with the matching variance components, covariance and fit measures; "
  "the estimated individual effects reproduce the residual decomposition, and dummy-variable regression gives the same slopes as the within estimator.",
  "all balanced panels (n, t), designs (time-invariant regressors in random-effects models included), units of measurement and method options",
  "These modules' tests need downloaded data and do not run; the claim is for every balanced panel.",
  ["spreg/panel.py", "spreg/panel_utils.py"], [("PooledOLS, PanelFE, PanelRE", "spreg/panel.py")],
  technique="differential PBT against dense transformed regressions and LSDV")

p("P20", "Spatial panels attain their optimum and accept wide or long data alike",
  "Fixed- and random-effects spatial lag and error panels, and the pooled error panel, attain the maximum of their Gaussian likelihood; the pooled GMM and the KKP (GM_KKP) random-effects error panels attain the minimum of their moment distance; and the coefficients, variance, covariance and residuals reported are those implied by the estimates. "
  "The same data given in wide or long layout give the same results.",
  "balanced panels x weights x designs x layouts",
  "These modules' tests need downloaded data and do not run.",
  ["spreg/panel_fe.py", "spreg/panel_re.py", "spreg/panel.py", "spreg/panel_utils.py", "spreg/sp_panels.py"], [("Panel_FE_Lag etc.", "spreg/panel_fe.py"), ("GM_KKP", "spreg/sp_panels.py")],
  technique="optimality PBT + layout metamorphic relation")

p("P21", "Panel LM and Hausman tests equal their definitions",
  "The panel Lagrange multiplier tests (lag, error, robust versions, random effects, Baltagi-Song-Koh) and the Hausman tests equal their published formulas from the pooled or within residuals, with the right degrees of freedom and p-values, independently of which other tests are requested.",
  "balanced panels x weights x designs x requested test sets",
  "These modules' tests need downloaded data and do not run.",
  ["spreg/diagnostics_panel.py"], [("panel_LMlag ... panel_Hausman", "spreg/diagnostics_panel.py")],
  technique="differential PBT against Kronecker-product algebra")

p("P22", "SUR and 3SLS are the GLS estimators of the equation system",
  "SUR (two-step, iterated or ML) and three-stage least squares equal feasible GLS on the stacked system with the residual covariance they report, iterated estimation being a fixed point; "
  "covariance, log-likelihood, Breusch-Pagan, LR and cross-equation Wald tests follow from it. With one regressor set common to all equations SUR equals equation-wise OLS.",
  "systems of 2-4 equations, unequal regressor counts, regimes",
  "These modules' tests need downloaded data and do not run.",
  ["spreg/sur.py", "spreg/sur_utils.py", "spreg/diagnostics_sur.py"], [("SUR, ThreeSLS, sur_est, sur_crossprod", "spreg/sur.py, spreg/sur_utils.py")],
  technique="differential PBT against dense Kronecker GLS + classical SUR identities")

p("P23", "Spatial SUR lag and error estimators satisfy their estimating equations",
  "The spatial-error SUR estimators (GM and ML) estimate one spatial parameter per equation by their moment or likelihood criterion and report FGLS on the spatially filtered system; the spatial-lag SUR equals 3SLS with each equation's lag of y instrumented by lagged exogenous variables. "
  "Reported likelihoods, covariances and LM diagnostics are consistent with the reported estimates.",
  "systems of 2-3 equations x weights x options",
  "These modules' tests need downloaded data and do not run.",
  ["spreg/sur_error.py", "spreg/sur_lag.py", "spreg/diagnostics_sur.py"], [("SURerrorGM, SURerrorML, SURlagIV, surLMe", "spreg/sur_error.py, spreg/sur_lag.py")],
  technique="differential / optimality PBT")

p("P24", "Probit maximises its likelihood and reports correct effects and tests",
  "Probit coefficients maximise the Bernoulli-normal likelihood (its gradient vanishes), and the covariance, log-likelihood, LR test, predictions, fit measures, marginal effects, their standard errors and the spatial LM tests follow their definitions at that estimate, for every optimiser and both scaling conventions.",
  "binary outcomes x designs x weights x optimisers x marginal-effect choices",
  FIX + "a single dataset.",
  ["spreg/probit.py", "spreg/diagnostics_probit.py"], [("BaseProbit", "spreg/probit.py")],
  technique="optimality PBT + numerical-derivative oracle for marginal effects")

p("P25", "Nonlinear SLX optimises its criterion and nests the linear SLX model",
  "The nonlinear SLX model reports the coefficients that (2S)LS gives at the reported distance parameters, at a criterion value no worse than at nearby or starting parameter values, with distance-decay weights built from the stated neighbours and cut-offs.",
  "point patterns x kernels/transforms x neighbour counts x variable selections",
  "The test module needs downloaded data and does not run.",
  ["spreg/nslx.py"], [("NSLX, _nltransform", "spreg/nslx.py")],
  technique="optimality / conditional differential PBT")

p("P26", "Endogenous regime search returns a valid contiguous partition",
  "The regionalisation returned assigns every observation one label, every region is connected in the contiguity graph and meets the minimum size, the number of regions is at most the requested one, "
  "and the reported fit is that of separate regressions over the regions; each extra cut does not increase the total score, and inputs are left unchanged.",
  "graphs x data x numbers of clusters x quorums x score functions",
  FIX + "one dataset with one quorum.",
  ["spreg/skater_reg.py", "spreg/ols_regimes.py"], [("Skater_reg", "spreg/skater_reg.py")],
  technique="invariant-checking PBT + brute-force first-cut oracle")

p("P27", "Specification search returns the model its decision rules select",
  "The specific-to-general and general-to-specific searches return a model whose label, class and estimates match the outcome of applying the published decision rules to independently computed test results at the given significance level.",
  "data-generating processes x weights x significance levels x options",
  FIX + "a few branches of the decision trees.",
  ["spreg/spsearch.py"], [("stge_classic, stge_kb, stge_pre, gets_gns, gets_sdm", "spreg/spsearch.py")],
  technique="model-based PBT: independent decision tree over recomputed tests")

p("P28", "Data-generating functions satisfy the model equation they name",
  "For given inputs each spatial data-generating function returns the y that satisfies its structural equation exactly (lag, error, MA, SLX, Durbin, SARAR, GNS and general forms), for both inversion methods, and rejects mismatched dimensions by returning nothing after an explanatory message.",
  "weights x parameters x designs x methods x error distributions",
  FIX + "fixed seeds and one lattice.",
  ["spreg/dgp.py"], [("dgp_*", "spreg/dgp.py"), ("inverse_prod", "spreg/utils.py")],
  technique="inverse-relation PBT (structural equation residual)")

p("P29", "Spatial multipliers and impacts are the derivatives of the reduced form",
  "Average total, direct and indirect impacts reported for lag and Durbin models equal the averages of the reduced-form derivative matrix (total: row-standardised weights multiplier), direct plus indirect equals total, and the power and full methods agree to the stated tolerance; "
  "per-observation multipliers equal those of the inverse.",
  "models x weights x lag orders x methods x regimes",
  FIX + "one weights matrix.",
  ["spreg/sputils.py", "spreg/output.py"], [("spmultiplier, _sp_effects, i_multipliers", "spreg/sputils.py")],
  technique="differential PBT against the dense inverse")

p("P30", "Invalid input is rejected before estimation, valid input is never rejected",
  "Missing or infinite values, mismatched lengths, non-numeric or boolean y, weights with non-zero diagonals or the wrong size, missing required weights, invalid robust options, too few observations per regime, regressors without variation over time in fixed-effects panels and unknown method names raise an exception in every estimator, rather than producing estimates (equation systems may instead report every estimate as missing when the data hold missing values); valid inputs do not raise.",
  "all estimators x single faults injected into valid inputs",
  FIX + "few fault kinds and estimators.",
  ["spreg/user_output.py"], [("check_arrays, check_y, check_weights, check_robust, check_reg_list", "spreg/user_output.py")],
  over=("inputs", "fault_sequences", "configurations"), technique="fault-injection PBT over estimators")

p("P31", "Estimation neither modifies its inputs nor depends on previous calls",
  "No estimator or diagnostic changes the arrays, data frames, lists, dictionaries or weights objects passed to it, and repeating a call on the same inputs in any order with other calls in between gives identical results.",
  "all public estimators x input containers x call sequences",
  "Tests call each estimator once and do not compare inputs before and after.",
  ["spreg/user_output.py", "spreg/utils.py", "spreg/sur_utils.py", "spreg/regimes.py"], [("argument normalisation", "spreg/user_output.py")],
  over=("inputs", "histories", "configurations"), technique="stateful PBT over call histories with deep input snapshots")

p("P32", "Equivalent input containers give equivalent results",
  "NumPy arrays of any numeric type (integers of any width, signed or unsigned), pandas Series/DataFrames (any index), one- or two-dimensional columns, and weights given as W objects (any ids), Graphs, dense or sparse matrices with the same values give the same estimates; data-frame column names become the reported variable names.",
  "all estimators x container and number type combinations (cross-sections, panels, systems of equations)",
  FIX + "containers are tested for few estimators.",
  ["spreg/user_output.py"], [("check_y, check_endog, check_constant, check_weights", "spreg/user_output.py")],
  technique="metamorphic PBT over input representations")

p("P33", "Results do not depend on observation order or labels",
  "Permuting the observations together with the weights (and regimes, coordinates) leaves coefficients, covariance and test statistics unchanged and permutes residuals and predictions; renaming ids or regime labels and reordering regressors only relabels or reorders the results.",
  "all estimators x permutations x relabelings",
  FIX + "always the file order.",
  ["spreg"], [("id_order handling", "spreg/utils.py, spreg/regimes.py, libpysal W")],
  technique="metamorphic PBT (permutation equivariance)")

p("P34", "Results are equivariant under rescaling of the data",
  "Multiplying y or a regressor by a constant rescales the corresponding coefficients, standard errors and residuals and leaves spatial parameters, z-values, p-values, R2 and scale-free test statistics unchanged; adding a constant to y shifts only the intercept in non-spatial-lag models.",
  "all estimators x scale factors",
  FIX + "one unit of measurement.",
  ["spreg"], [("estimators", "spreg/*.py")],
  technique="metamorphic PBT (scale equivariance)")

p("P35", "The results table and printed summary report the fitted quantities",
  "The output table has one row per coefficient carrying the matching name, coefficient, standard error, statistic and p-value, and the printed summary shows the same numbers, the right model title, sample size, number of variables, fit measures, diagnostics and warnings, in text or LaTeX form; printed values are never of another variable, regime or equation.",
  "all estimators x naming options x regimes/multi-equation models",
  FIX + "the summary text is hardly ever checked.",
  ["spreg/output.py", "spreg/summary_output.py"], [("output, out_part_*", "spreg/output.py")],
  technique="consistency PBT: parse the summary and compare with the fitted object")

p("P36", "Matrix utilities equal their dense definitions",
  "The shared numerical helpers (spatial lags, power-series and true inverses and products, spatial filters, sparse/dense dot, stack, broadcast and log-determinant helpers, weighting-matrix builders) equal their dense-algebra definitions for every supported storage format, and report failure rather than return a wrong value when a series does not converge.",
  "matrices x formats x parameters",
  FIX + "fixed small matrices.",
  ["spreg/utils.py", "spreg/sputils.py", "spreg/w_utils.py"], [("power_expansion, inverse_prod, get_lags, get_spFilter, spdot, sphstack, splogdet", "spreg/utils.py, spreg/sputils.py")],
  technique="differential PBT against dense NumPy")

p("P37", "Estimating regimes on several processes gives the same results",
  "For every regimes estimator that offers it, asking for multiprocessing gives exactly the results of the sequential run: coefficients, covariance matrices, residuals in the original order, the separate models, tests, names and summary, with every option passed on to the workers; a call that is rejected sequentially is rejected with several processes as well.",
  "regimes estimators x options x numbers of processes",
  "No test uses the option at all: whether every argument reaches the workers and every result comes back to its regime depends on the combination of options, the number of regimes and which worker finishes first.",
  ["spreg/ols_regimes.py", "spreg/twosls_regimes.py", "spreg/twosls_sp_regimes.py", "spreg/error_sp_regimes.py", "spreg/error_sp_hom_regimes.py", "spreg/error_sp_het_regimes.py", "spreg/ml_lag_regimes.py", "spreg/ml_error_regimes.py"],
  [("_ols_regimes_multi, _tsls_regimes_multi, _error_regimes_multi, ... and their _work functions", "spreg/*_regimes.py")],
  technique="differential PBT between sequential and multi-process execution")

NA = {}

PY = "/opt/venv/bin/python run.py"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for q in P:
            fh.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                            "observe_at": ["public constructors and functions; attributes of the returned objects"],
                            "hook_needed": None}}) + "\n")
    checks, na = [], []
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        if q["id"] in NA:
            na.append({"property": q["id"], "reason": NA[q["id"]]})
            continue
        if not os.path.exists(os.path.join(HERE, "checks", q["id"] + ".py")):
            na.append({"property": q["id"], "reason": "check not built yet"})
            continue
        checks.append({
            "property": q["id"],
            "quick_cmd": "%s %s --tier quick" % (PY, q["id"]),
            "thorough_cmd": "%s %s --tier thorough" % (PY, q["id"]),
            "evidence_file": "evidence/%s.json" % q["id"],
            "technique": "property-based testing (Hypothesis): " + q["technique"],
            "level": "exploration",
            "level_note": q["note"] or (
                "Seeded generated-input search over " + q["text"] + ", judged by an oracle that shares no code with "
                "spreg; shrunk failures become replay files. Trusts numpy/scipy/libpysal and the reference formulas in "
                "/verif; it finds counterexamples, it does not prove absence."),
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1,
                   "setup_cmd": "/opt/venv/bin/python -B tools/selftest.py",
                   "checks": checks, "not_applicable": na,
                   "notes": "Pure Python: checks import spreg straight from /repo's working tree; nothing to build."},
                  fh, indent=1)
    print(len(checks), "checks;", len(na), "not claimed")


main()
