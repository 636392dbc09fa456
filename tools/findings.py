"""Writes known_findings.json (edited here, never by a check)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F, K = [], []


def fixed(props, commit, what):
    for p in props.split():
        F.append({"property": p, "status": "fixed", "commit": commit, "what": what,
                  "line": "fixed: property=%s %s %s" % (p, commit, what)})


def known(prop, key, what, where):
    K.append({"property": prop, "key": key, "status": "known", "what": what, "where": where})


fixed("P31", "9bb0460", "check_endog reshaped the caller's one-dimensional yend/q arrays in place")
fixed("P06 P36", "a4c559a", "power_expansion raised 'will not converge' on convergent series (large data, transient growth)")
fixed("P03", "78d38d4", "breusch_pagan and koenker_bassett crashed on a user-supplied z array")
fixed("P08 P36", "b3bc3f8", "inverse_prod truncated the power expansion for a coefficient next to +-1")
fixed("P06 P07", "a7ee8a5", "spatial lag 2SLS with SLX terms skipped a lag of x among its instruments and misnamed them")
fixed("P10 P34", "e89d7e8", "GM error estimators returned a wrong lambda when y was measured in small or large units")
fixed("P08 P09 P31", "e581554", "ord method used the wrong eigenvalues for non-binary or not row-standardised weights and changed w's transform")
fixed("P15 P17", "a3e691b", "separate regimes turned the weights within each regime into binary ones")
fixed("P29", "c35f4f2", "power method for impacts stopped at the first zero or negative term of the series")
fixed("P10", "b9bb53e", "GM error estimators could stop the search for lambda before a minimum of the moment distance was reached")
fixed("P16", "21b99d1", "iterations of the homoskedastic/heteroskedastic regimes error models kept filtering by the first-step lambda")

fixed("P13", "46406f2", "regimes= dropped slx_vars (OLS, TSLS, ML_Error, GMM_Error) and hard_bound (GMM_Error); the fallback of GMM_Error dropped slx_vars")

fixed("P14 P35", "fbbc5ea", "TSLS_Regimes with separate errors and more than 16 coefficients scrambled the variable names of its output table")
fixed("P14", "716ee05", "fractional regime codes such as 0.5 and 1.5 were truncated to integers (KeyError)")
fixed("P14 P35", "0de4080", "with separate errors and spat_diag the variance matrix of OLS_Regimes/TSLS_Regimes was dropped (AttributeError on model.vm)")
fixed("P14", "8f20878", "Moran's I of the residuals of OLS_Regimes with separate errors used the number of coefficients of a single regime")
fixed("P15 P16", "b0aad64", "instruments of separate regimes spatial lag models repeated lags of x for w_lags > 2")
fixed("P15 P16 P17", "81264d6", "separate regimes models crashed when a variable constant within a regime was removed")
fixed("P15 P17 P29", "c0d63d4", "SLX options of the spatial lag regimes models (slx_vars, cols2regi, impacts, instrument names)")
fixed("P15 P16", "13d8e50", "spatial lag by regimes with SLX terms used neighbors of other regimes for the lag of y")
fixed("P13", "0d61e2c", "GM_Lag and ML_Lag forward slx_vars to the regimes estimator")
fixed("P15", "2dcdde0", "instrument names of separate spatial lag models kept variables removed for being constant")

fixed("P16", "c550a6a", "GM_Combo regimes models with SLX and separate lags lacked rho, predictions and their labels")
fixed("P16", "bdb9d13", "instrument names of separate GM_Combo regimes models kept variables removed for being constant within a regime")
fixed("P16 P35", "55b695e", "lambda row of separate heteroskedastic regimes models named without separator")

fixed("P18", "ac19f96", "Wald raised when given an array of right-hand-side values")

fixed("P19 P20", "94dd30f", "wide panels lost their layout when a variable was constant within one period (it was dropped for that period only)")
fixed("P19 P20 P32", "b67fa32", "panel models rejected pandas Series in the long layout")
fixed("P21", "cce1e38", "the marginal BSK test LM2 alone, and BSK tests of models other than PooledOLS, raised")
fixed("P21", "1dac6ad", "panel_Hausman used the number of all coefficients as degrees of freedom and failed on ML_ErrorRE")
fixed("P20", "bf5e39d", "GM_KKP did not repeat regimes given as an array or Series for every period")
fixed("P20 P35", "656717b", "ML_ErrorPooled reported a period's column as dependent variable name; ML_ErrorFE labelled the wrong variable types")
fixed("P19 P30", "7ccf10a", "wide panels with more columns than rows were rejected")
fixed("P30", "316c9e6", "wide panel regressors with an incomplete last variable were silently truncated")
fixed("P20", "b650a3b", "pooled panel error models with nonspat_diag=False raised UnboundLocalError")
fixed("P20 P29", "0f84e1b", "impacts of panel lag models with selected SLX variables raised a shape error")
fixed("P22", "724176e", "sur_dictxy and sur_dictZ used dict.has_key, removed in Python 3, for long tables")
fixed("P22", "4d659ed", "the LM lag test in SUR models multiplied matrices where the score needs element-wise products")
fixed("P22 P35", "42a9125", "the summary of 3SLS systems whose equations split the same number of coefficients differently raised IndexError")
fixed("P22", "fdb938a", "Chow tests by regime of 3SLS contrasted the wrong coefficients when there are endogenous variables")
fixed("P31", "d9ecfa9", "SUR models with regimes or a spatial lag replaced the entries of the caller's dictionaries and lists")
fixed("P23 P35", "a9f4e5c", "SURlagIV ignored the names given for endogenous variables and instruments")
fixed("P23", "6a7e6bb", "SURlagIV with regimes and endogenous variables, instruments or higher lags stacked sparse matrices with np.hstack")
fixed("P23 P35", "69b5bcb", "SURlagIV with regimes and a common lag reported the endogenous variables without their regimes")
fixed("P23", "10dd35b", "Chow tests by regime of SURlagIV contrasted the wrong coefficients when endogenous variables vary by regime")
fixed("P23", "c8f959d", "joint test of the spatial lags of SURlagIV left out those of all regimes but the last")
fixed("P23", "119fc20", "SURerrorML with regimes evaluated the single-equation likelihoods on sparse matrices as infinite")
fixed("P23", "daa848d", "SURerrorML raised when its search touched a spatial parameter of one in absolute value")
fixed("P24", "06202fd", "LR test of Probit counted the constant among its degrees of freedom")
fixed("P24 P35", "01d312d", "Probit never printed the confusion matrix requested with predflag")
fixed("P25", "1752e7f", "NSLX with var_flag=0 halved the covariance matrix, taking the Hessian of the sum of squares for that of half of it")
fixed("P25", "5c66590", "NSLX failed when the last point is nobody's neighbor, its weights lacking a column")
fixed("P25", "833a797", "NSLX with power decay reported nan variances, taking the logarithm of the zero weight of the furthest neighbor")
fixed("P25 P35", "0c857e0", "NSLX with parameters for every variable and one selected reported its spatial lag under the name of the variable")
fixed("P25 P32", "c6d85ed", "NSLX looked up point coordinates by label 0 instead of position")
fixed("P34", "f85d57f", "the power expansion stopped at an absolute size of its terms, so predictions and filters of data in small units were truncated")

fixed("P32", "87f8537", "panel models asked the weights for their size before converting graphs and matrices")

fixed("P30", "0455a2f", "endogenous variables and instruments of the wrong length or with missing values were accepted by GM_Lag, TSLS_Regimes, GM_Lag_Regimes and GM_Combo*_Regimes")
fixed("P35", "c7beb11", "Chow tests were missing from the summaries of all regimes models (an error inside the formatting was swallowed)")
fixed("P35", "1ca944f", "every model fit printed its class name to standard output")
fixed("P35", "50fdf3d", "the Probit summary did not warn that a constant variable had been dropped")
fixed("P03", "be07684", "White's test on pooled regimes models inverted an exactly singular auxiliary design (values like -4e35 or LinAlgError)")
fixed("P35", "c24b6c8", "ML_ErrorRE reported a complex log likelihood and its summary had no fit measures")
fixed("P35", "3e2ffed", "SUR/3SLS regimes summaries printed the global Chow degrees of freedom of the last equation for every equation")
fixed("P18 P35", "a376fe4", "Chow tables of GM_Combo_Regimes and others listed a lambda row of nan although lambda is not tested")
fixed("P18 P35", "59880ec", "ML_Error_Regimes labelled the rows of its Chow table with the wrong variables (or left the table out) when some coefficients do not vary by regime")
fixed("P26", "cb1f080", "Skater_reg.fit set the transform of the user's weights to binary, and the endogenous regimes models went on to estimate with them")
fixed("P26", "01d0541", "Skater_reg with spatial lag models dropped the first variable from the instruments (no instruments at all with one variable) and wrote yend and q into the user's dictionary")
fixed("P26", "863f0fc", "Skater_reg returned no labels at all once the quorum allowed no further cut")
fixed("P26", "2fd83ea", "Skater_reg.score_spreg and score_stats failed on given or fitted labels (UnboundLocalError)")
fixed("P26", "3237a39", "on a disconnected map Skater_reg chose cuts and reported scores without the scores of the initial components")
fixed("P26", "3d41ac4", "Skater_reg treated neighbours with equal attributes as disconnected")
fixed("P26", "e73c81b", "the endogenous regimes models printed errors of the search and then failed with UnboundLocalError")
fixed("P26", "65de558", "the endogenous regimes models failed with the default number of clusters whenever the search could only compare one partition (n*0.7//quorum = 2)")
fixed("P26", "b0b0850", "the endogenous regimes models failed with trace=False")
fixed("P26", "6036eb9", "GM_Lag_Endog_Regimes with a constant column in x passed the column on without its name")
fixed("P27 P35", "1c85cf5", "summaries of models selected by the specification searches showed False as the name of the weights")
fixed("P27", "5202480", "stge_pre labelled a spatial Durbin model LAG when the lag model behind the AK test is out of bounds")
fixed("P27", "d6e16d0", "gets_sdm raised LinAlgError on its SLX branch (it computed the Koley-Bera tests of an SLX model)")
fixed("P27", "1f9b676", "the specification searches ignored name_y without name_x (and the reverse), and GETS searches miscounted coefficients (wrong selection) when x holds a constant column")
fixed("P08 P09", "013f702", "ML_Lag/ML_Error method='full' took the logarithm of an underflowing determinant in larger samples (n in the hundreds with strong dependence), returning a wrong optimum")
fixed("P35", "177d035", "name_y of separated regimes models was a list of single characters instead of the regimes' names of y")
fixed("P35", "ee5dc12", "GM_Error_Regimes with separate errors and SLX terms: the regimes' titles did not mention SLX")
fixed("P24 P32", "e5a6953", "Probit failed (or was wrong) for a binary dependent variable of unsigned integer type, as 2y-1 wraps around")
fixed("P32", "1b0e228", "PanelFE truncated the demeaned values of integer regressors to integers (wrong coefficients for x of integer type)")
fixed("P32", "c2a70c9", "systems of equations: cross-products of variables of narrow integer types (uint8, int8, int16) overflowed")
fixed("P32", "173163e", "boolean and narrow integer weights matrices (dense, sparse, Graph, W): products of the weights saturated or overflowed and GMM/LM results were wrong")
fixed("P32", "bb11fab", "series without a name and labels that are not strings (default integer columns, a column called 'name') made estimators fail or reported a Series as the name; unnamed GeoSeries coordinates made NSLX fail (P25)")
fixed("P19 P34", "97e76f8", "PanelRE dropped regressors whose within variance is below 1e-12 in absolute terms, so a change of units altered the Hausman test and the variance components")
fixed("P30", "813d1d8", "fixed effects panels (PanelFE, FE spatial lag and error) returned arbitrary coefficients, of the order of rounding noise ratios, for regressors that do not vary over time")

ORD = ("method='ord' with asymmetric weights that come from symmetric ones (e.g. row-standardised contiguity): the variance of the spatial "
       "parameter uses the symmetrised matrix, whose trace of G'G differs from that of W, so it differs from methods 'full' and 'LU'. "
       "Pinned by the existing tests test_ml_lag/test_ml_error test_ord, hence recorded, not repaired.")
known("P08", "ord-vm", ORD, "spreg/ml_lag.py BaseML_Lag, ORD branch")
known("P09", "ord-vm", ORD, "spreg/ml_error.py BaseML_Error, ORD branch")

known("P17", "ord-vm", ORD, "spreg/ml_lag.py, spreg/ml_error.py ORD branches, used by ML_Lag_Regimes and ML_Error_Regimes")
known("P17", "ml-filter", "ML_Error_Regimes with a common error process maximises the likelihood of variables that are spatially filtered and then interacted by regime, but reports sigma-squared (and from it the "
      "covariance matrix) of the residuals filtered as a whole, so sigma-squared is not the one at the reported maximum. Pinned by the existing test test_ml_error_regimes, hence recorded.",
      "spreg/ml_error.py BaseML_Error, get_x_lag against e_filtered")

known("P18", "chow-global", "Chow tests of endogenous variables (and of the spatial lag by regime) in models that also hold coefficients of exogenous variables (or the constant) fixed across regimes contrast the wrong "
      "coefficients: the positions do not count the fixed coefficients that precede the endogenous ones. Pinned by the existing test test_fixed_const of GM_Lag_Regimes, hence recorded.",
      "spreg/regimes.py buildR1var, _chow_run")
known("P12", "het-clamp", "GM_Endog_Error_Het silently limits the coefficient of the last endogenous variable, an ordinary coefficient when there is no spatial lag, to "
      "[-0.9, 0.9] in both regression steps (meant for rho in the combo model that inherits the code). Pinned by the existing test test_error_sp_het_regimes, hence recorded.",
      "spreg/error_sp_het.py BaseGM_Endog_Error_Het")

known("P16", "step1c-filter", "GM_Endog_Error_Het_Regimes and GM_Combo_Het_Regimes (common error process) with step1c=True filter the first iteration by the unweighted first-step lambda instead of that of "
      "step 1c, which the moment weights of the same iteration and every other estimator use. Pinned by test_error_sp_het_regimes.",
      "spreg/error_sp_het_regimes.py GM_Endog_Error_Het_Regimes.__init__, step 2a")
known("P14", "gwh-r2", "OLS_Regimes with groupwise heteroskedasticity (regime_err_sep with global coefficients) reports R2, adjusted R2 and utu of the first-step (unweighted) residuals, not of the "
      "residuals it reports. The cached first-step quantities are pinned through the spatial diagnostics by the existing test test_OLS_fixed, hence recorded.", "spreg/ols_regimes.py OLS_Regimes.__init__")
known("P14", "gwh-dof", "OLS_Regimes with groupwise heteroskedasticity divides each regime's squared residuals by n_r - k, k counting the coefficients of all regimes: with a regime no larger than k the "
      "variance is negative or infinite and the estimates are nan. Pinned by the existing test test_OLS_fixed, hence recorded.", "spreg/regimes.py _get_weighted_var")

known("P20", "lagfe-mu", "ML_LagFE computes the fixed effects mu_i (and their mean) as unit means of y - x*b without subtracting rho*Wy, so they are not those of the model it estimates. "
      "Pinned by the existing test test_panel.py test_ML_LagFE, hence recorded.", "spreg/panel.py ML_LagFE.__init__")
known("P20", "lagre-vm", "ML_LagRE and Panel_RE_Lag invert an information matrix that is not that of the likelihood they maximise (the terms of phi lack factors 1/phi and sigma2, and the matrix is not symmetric), "
      "so the covariance matrix is not the inverse information and is not symmetric. Pinned by test_panel.py and test_panel_re.py, hence recorded.", "spreg/panel.py BaseML_LagRE, spreg/panel_re.py BasePanel_RE_Lag")
known("P20", "errorre-lik", "ML_ErrorRE maximises a likelihood written in the eigenvalues and eigenvectors of W, right only for symmetric weights with distinct eigenvalues: with row-standardised weights (or repeated eigenvalues, whose "
      "numerical eigenvectors are not orthogonal) the estimates do not maximise the likelihood and logll (a complex number) is not its value. Pinned by test_panel.py test_ML_ErrorRE, hence recorded.",
      "spreg/panel.py BaseML_ErrorRE.err_c_loglik_ord")
known("P20", "errorre-vm", "ML_ErrorRE and Panel_RE_Error use squares of traces where the information matrix of lambda and sigma2_u has traces of squares (and sqrt(phi) for phi), so their variances are not the inverse information. "
      "Pinned by test_panel.py and test_panel_re.py, hence recorded.", "spreg/panel.py BaseML_ErrorRE, spreg/panel_re.py BasePanel_RE_Error")
known("P20", "panel-fe-logll", "the deprecated Panel_FE_Lag and Panel_FE_Error report a log-likelihood (and AIC, Schwarz) without the term NT/2 log(NT). Pinned by test_panel_fe.py, hence recorded.", "spreg/panel_fe.py")
known("P20", "kkp-tau", "GM_ErrorRE and GM_KKP with full_weights use a moment weighting matrix with one element divided by N twice and one lacking the factor 2 of Kapoor, Kelejian and Prucha (2007). "
      "Pinned by test_sp_panels.py, hence recorded.", "spreg/panel.py BaseGM_ErrorRE._get_Tau, spreg/sp_panels.py _get_Tau")

known("P21", "panel-lmlag", "panel_LMlag uses the square of tr(W'W+WW) where Anselin, Le Gallo and Jayet (2008) and the robust tests of the same module have T tr(W'W+WW), so the statistic is far too small. "
      "Pinned by test_diagnostics_panel.py test_LM, hence recorded.", "spreg/diagnostics_panel.py panel_LMlag")
known("P21", "panel-hausman-sign", "panel_Hausman takes the covariance of the random-effects minus that of the fixed-effects estimates, so the statistic has the wrong sign (negative, p-value 1). "
      "Pinned by test_diagnostics_panel.py test_Hausman, hence recorded.", "spreg/diagnostics_panel.py panel_Hausman")

known("P25", "nslx-grad", "NSLX with exponential decay multiplies the derivative of exp(-alpha d) by log(alpha d), so the analytical variances of the distance parameters are wrong (nan when alpha is negative). "
      "Pinned by test_nslx.py, hence recorded.", "spreg/nslx.py _nltransform, gradflag=1")
known("P25", "nslx-block", "NSLX sets the covariances between the regression coefficients and the distance parameters to zero: the analytical covariance matrix is not the inverse of the full Gauss-Newton matrix. "
      "Pinned by test_nslx.py, hence recorded.", "spreg/nslx.py BaseNSLX.__init__, var_flag branch")

known("P29", "lagsep-rho", "GM_Lag_Regimes with a spatial lag per regime next to coefficients fixed across regimes reports impacts of all regimes with the spatial parameter (and multipliers) of the last regime. "
      "A repair would change the form of sp_multipliers (one set per regime), hence recorded.", "spreg/twosls_sp_regimes.py GM_Lag_Regimes.__init__, sp_att_reg and _summary_impacts")

known("P34", "lagre-vm", "the z-values of Panel_RE_Lag change with the unit of measurement of y, because its information matrix lacks factors 1/phi and sigma2 (see P20). "
      "Pinned by test_panel_re.py, hence recorded.", "spreg/panel_re.py BasePanel_RE_Lag")
known("P27", "spsearch-options", "The specification searches accept robust and sig2n_k but never use them: with robust='white' the selected OLS or GM_Lag model has classical standard errors, and sig2n_k=False leaves "
      "OLS at n-k. Honouring them (sig2n_k is True by default, and GM_Lag is fitted with False) changes the documented results pinned by the existing tests of spsearch and the tests the decisions rest on, hence recorded.",
      "spreg/spsearch.py stge_classic, stge_kb, stge_pre, gets_gns, gets_sdm")


def main():
    with open(os.path.join(HERE, "known_findings.json"), "w") as fh:
        json.dump({"findings": K, "fixed": F}, fh, indent=1)


main()
