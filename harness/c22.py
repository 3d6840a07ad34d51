"""C22: sessions of public calls over shared inputs; nothing but figures and printouts may change."""
import contextlib
import inspect
import io
import json
import os
import pkgutil
import importlib

import numpy as np
import vf

COLS = ["label", "xcentroid", "ycentroid", "area", "segment_flux", "max_value", "maxval_xindex", "maxval_yindex", "elongation",
        "ellipticity", "orientation"]


# ------------------------------------------------------------------ the shared inputs
def scene():
    import petrofit as pf
    from astropy.io.fits import Header
    from astropy.modeling import models as am
    from astropy.nddata import CCDData, Cutout2D
    from astropy.table import Table
    from astropy.wcs import WCS
    from photutils.segmentation import SegmentationImage, SourceCatalog

    rng = np.random.default_rng(5)
    y, x = np.mgrid[:44, :48]
    img = am.Sersic2D(4, 4, 1, 17, 20, 0.3, 0.5)(x, y) + am.Gaussian2D(6, 36, 30, 2, 1.5, 0.3)(x, y)
    img = np.round((img + 0.05 + 0.001 * x + 0.01 * rng.normal(size=img.shape)) * 2**16) / 2**16
    lab = np.zeros(img.shape, dtype=int)
    lab[((x - 17) / 9) ** 2 + ((y - 20) / 7) ** 2 < 1] = 1
    lab[((x - 36) / 6) ** 2 + ((y - 30) / 5) ** 2 < 1] = 2
    S = dict(img=img, err=np.sqrt(0.01 + 0.01 * abs(img)), mask=(x + y) % 7 > 0, thr=np.full(img.shape, 0.5) + 0.001 * y,
             imgint=np.round(img * 10).astype(int), nanimg=np.where((x == 20) & (y > 30), np.nan, img), weights=1 + (x % 3) * 0.5)
    S["finite"] = ~np.isnan(S["nanimg"])
    S["maimg"] = np.ma.array(img, mask=(x == 3))
    S["ccd"], S["cut"] = CCDData(img.copy(), unit="adu"), Cutout2D(img.copy(), (17, 20), 21, copy=True)
    S["small"] = np.array(img[10:31, 7:28])
    S["blob"] = am.Gaussian2D(6, 7.3, 6.6, 2, 1.5, 0.3)(*np.mgrid[:15, :15][::-1])
    S["nanblob"] = np.where((x == 3) & (y < 5), np.nan, img)[:15, :15] * 0 + S["blob"]
    S["segm"] = SegmentationImage(lab)
    S["cat"] = SourceCatalog(img, S["segm"])
    S["src"] = S["cat"][0]
    S["table"] = S["cat"].to_table(columns=COLS)
    S["row"] = S["table"][1]
    S["labels"], S["sources"] = [1], [S["cat"][0], 2]
    S["rlist"], S["radii"] = [1.0, 2.0, 3.5, 5.0, 7.5], np.arange(1, 13.0)
    S["pos"] = [17.0, 20.0]
    r = np.arange(1, 31) * 1.5
    f = pf.sersic_enclosed(r, 3, 6, 1.2)
    S.update(r=r, area=np.pi * r**2, flux=f, ferr=0.01 * f + 0.1, aerr=0.1 * r)
    S["prof"] = np.append(np.nan, pf.petrosian_profile(r, 6, 1.2)[1:])
    S["perr"] = np.append(np.nan, np.full(r.size - 1, 0.02))
    S["p"] = pf.Petrosian(r, S["area"], f, flux_err=S["ferr"])
    S["p2"] = pf.Petrosian(r, S["area"], f, area_err=S["aerr"], interp_kind="linear", interp_num=200)
    k = np.arange(6)
    S["grid"] = Table({"n": 0.5 + k, "r_eff": 3.0 + k, "p02": 8.0 + 3 * k, "p03": 7.0 + 2.5 * k, "p04": 6 + 2.2 * k, "p05": 5.0 + 2 * k,
                       "u_r_50": 3 + 1.1 * k, "u_c2080": 2.2 + 0.3 * k, "c_r_50": 3.1 + 1.2 * k, "c_r_80": 6.2 + 2.2 * k, "c_r_99": 11.0 + 6 * k})
    S["corr"] = pf.PetrosianCorrection(S["grid"], enforce_range=False)
    psf = np.outer([1, 2, 1], [1, 3, 1]) / 20.0
    S["psf"] = psf
    S["sersic"] = am.Sersic2D(4, 4, 1, 17, 20, 0.3, 0.5, bounds=pf.get_default_sersic_bounds(), fixed={"n": True})
    S["gauss"] = am.Gaussian2D(5, 7, 7, 2.2, 1.8)
    S["compound"] = am.Gaussian2D(5, 7, 7, 2.2, 1.8) + am.Const2D(0.1)
    S["plane"] = am.Planar2D(0.1, 0.2, 0.3)
    S["pm"] = pf.PSFConvolvedModel2D(S["sersic"], psf=psf, oversample=2)
    S["pw"] = pf.PSFConvolvedModel2D(S["sersic"], psf=psf, oversample=("x_0", "y_0", 8, 4))
    S["header"] = Header([("PHOTFLAM", 1e-19), ("PHOTZPT", -21.1), ("PHOTPLAM", 8000.0)])
    S["hdict"] = dict(PHOTFLAM=1e-19, PHOTZPT=-21.1, PHOTPLAM=8000.0)
    w = WCS(naxis=2)
    w.wcs.cdelt, w.wcs.ctype, w.wcs.crval, w.wcs.crpix = [-0.1 / 3600, 0.1 / 3600], ["RA---TAN", "DEC--TAN"], [10, 10], [1, 1]
    w.wcs.set()
    S["wcs"] = w
    S["fluxes"], S["fluxlist"] = np.array([1.0, -1, 0, 5]), [1, -1, 0, 5]
    S["words"] = ["b10", "a2", "A1", "b9"]
    S["ra1"], S["de1"], S["ra2"], S["de2"] = np.array([1.0, 2, 3]), np.array([0.0, 1, 2]), np.array([2.9, 1.2]), np.array([2.0, 0.1])
    S["target"] = np.ones((5, 4))
    S["override"] = {"n": (0.5, 4)}
    S["grx"], S["gry"] = np.meshgrid(np.arange(12.0), np.arange(9.0))
    S["size"], S["center"] = [14, 11], (17, 20)
    S["figsize"], S["window"], S["nlist"], S["relist"] = [5, 4], ["x_0", "y_0", 6, 4], [1.0, 2.0], [4.0, 5.0]
    S["apertures"] = [pf.photometry.radial_elliptical_aperture([17.0, 20.0], k, 1.3, 0.2) for k in (2, 4)]
    S["rows"] = S["table"][:2]
    return S


def readings(p):
    return [p.r_petrosian, p.r_petrosian_err, p.r_half_light, p.r_half_light_err, p.r_total_flux, p.r_total_flux_err, p.total_flux,
            p.total_flux_err, p.half_flux, p.half_flux_err, p.c2080, p.c5090, p.concentration_index(), p.fraction_flux_to_r(0.3),
            p.eta, p.epsilon, p.epsilon_fraction, p.total_flux_fraction, p.petrosian_list, p.petrosian_err]


# ------------------------------------------------------------------ the calls
def calls():
    """name -> (function of shared inputs and the wish to see something, can it show something)"""
    import petrofit as pf
    from petrofit import utils as U
    from petrofit.modeling import models as M
    from petrofit.modeling import fitting as F
    from petrofit.photometry import radial_elliptical_annulus, radial_elliptical_aperture
    from astropy import units as u
    from astropy.modeling import fitting as af
    from matplotlib import pyplot as plt

    C = {}

    def add(name, fn, show=False):
        C[name] = (fn, show)

    # measurements
    add("photometry", lambda S, v: pf.radial_photometry(S["img"], S["pos"], S["rlist"], error=S["err"], mask=S["mask"], elong=1.4, theta=0.5, plot=v), True)
    add("photometry-center", lambda S, v: pf.radial_photometry(S["imgint"], S["center"], S["radii"], mask=S["mask"], method="center", plot=v), True)
    add("photometry-nan", lambda S, v: pf.radial_photometry(S["nanimg"], S["pos"], S["radii"], error=S["nanimg"], mask=S["finite"], plot=v, vmax=3), True)
    add("source", lambda S, v: pf.source_photometry(S["src"], S["img"], S["segm"], S["rlist"], error=S["err"], plot=v), True)
    add("source-clip", lambda S, v: pf.source_photometry(S["src"], S["img"], S["segm"], S["radii"], bg_sub=True, sigma=2.0, cutout_size=30, plot=v), True)
    add("source-bound", lambda S, v: pf.source_photometry(S["src"], S["nanimg"], S["segm"], S["radii"], error=S["err"], bg_sub=True, sigma=0.2, sigma_type="bound", plot=v), True)
    add("source-masked", lambda S, v: pf.source_photometry(S["src"], S["imgint"], S["segm"], S["rlist"], mask_background=True, method="subpixel", plot=v), True)
    add("aperture", lambda S, v: [radial_elliptical_aperture(S["pos"], 3, 1.3, 0.2).area, radial_elliptical_annulus(S["pos"], 3, 1, 1.3, 0.2).area])
    add("plot-apertures", lambda S, v: pf.plot_apertures(S["img"], [radial_elliptical_aperture(S["pos"], 3, 1.3, 0.2)]))
    add("plot-no-apertures", lambda S, v: pf.plot_apertures(S["img"]))
    add("plot-shared-apertures", lambda S, v: pf.plot_apertures(apertures=S["apertures"], vmin=0, vmax=2))
    add("source-figure", lambda S, v: pf.source_photometry(S["src"], S["ccd"], S["segm"], S["rlist"], bg_sub=True, cutout_size=S["size"][1], plot=v, figsize=S["figsize"]), True)
    add("photometry-all-masked", lambda S, v: pf.radial_photometry(S["maimg"].data, S["center"], S["rlist"], error=S["maimg"].data, mask=S["maimg"].mask, plot=v), True)
    # segmentation
    add("segments", lambda S, v: pf.make_segments(S["img"], npixels=4, threshold=S["thr"]))
    add("deblend", lambda S, v: pf.deblend_segments(S["img"], S["segm"], npixels=4))
    add("catalog", lambda S, v: pf.make_catalog(S["img"], S["thr"], npixels=4, plot=v), True)
    add("catalog-plain", lambda S, v: pf.make_catalog(S["ccd"], 0.5, wcs=S["wcs"], npixels=4, deblend=False, plot=v), True)
    add("mask-labels", lambda S, v: pf.segm_mask(S["labels"], S["segm"]))
    add("mask-sources", lambda S, v: pf.segm_mask(S["sources"], S["segm"], mask_background=True))
    add("masked", lambda S, v: pf.masked_segm_image(S["src"], S["img"], S["segm"]))
    add("masked-ccd", lambda S, v: pf.masked_segm_image(S["labels"], S["ccd"], S["segm"], fill=0))
    add("masked-int", lambda S, v: pf.masked_segm_image(2, S["imgint"], S["segm"], mask_background=True))
    add("masked-ma", lambda S, v: pf.masked_segm_image(S["src"], S["nanimg"], S["segm"], fill=-1.0))
    add("order", lambda S, v: [int(k) for k in pf.order_cat(S["cat"], key="max_value")])
    add("order-up", lambda S, v: [int(k) for k in pf.order_cat(S["cat"], reverse=False)])
    add("accessors", lambda S, v: [[pf.get_source_position(s), pf.get_source_elong(s), pf.get_source_ellip(s), pf.get_source_theta(s)] for s in (S["src"], S["row"])])
    add("amplitude", lambda S, v: pf.get_amplitude_at_r(4, S["img"], 17, 20, 0.3, 0.5))
    add("catalog-nan", lambda S, v: pf.make_catalog(S["nanimg"], 0.5, npixels=4, plot=v), True)
    add("masked-nan", lambda S, v: pf.masked_segm_image([1, 2], S["nanimg"], S["segm"], fill=0.5, mask_background=True))
    add("plot-segments-nan", lambda S, v: [pf.plot_segments(S["segm"], S["nanimg"]), pf.plot_segment_residual(S["segm"], S["nanimg"])])
    add("amplitude-ccd", lambda S, v: pf.get_amplitude_at_r(4, S["ccd"], 17, 20, 0.3, 0.5))
    add("plot-segments", lambda S, v: pf.plot_segments(S["segm"], S["img"], title="x"))
    add("plot-residual", lambda S, v: pf.plot_segment_residual(S["segm"], S["img"]))
    add("catalog-figure", lambda S, v: pf.make_catalog(S["img"], S["thr"], npixels=S["labels"][0] + 3, figsize=S["figsize"], plot=v, vmax=3, vmin=0), True)
    add("order-table", lambda S, v: [int(k) for k in pf.order_cat(S["cat"], key="segment_flux")])
    # models and images
    add("grid-points", lambda S, v: pf.make_grid(6, origin=S["center"], factor=2))
    add("image", lambda S, v: pf.model_to_image(S["sersic"], S["size"], center=S["center"]))
    add("image-oversampled", lambda S, v: pf.model_to_image(S["compound"], 15, mode="oversample", factor=3))
    add("image-psf", lambda S, v: pf.model_to_image(S["pm"], S["size"], center=S["center"]))
    add("image-window", lambda S, v: pf.model_to_image(S["pw"], (40, 44)))
    add("evaluate-psf", lambda S, v: S["pm"](S["grx"], S["gry"]))
    add("wrap", lambda S, v: pf.PSFConvolvedModel2D(S["sersic"], psf=S["psf"], oversample=4, psf_oversample=2))
    add("wrap-window", lambda S, v: pf.PSFConvolvedModel2D(S["compound"], psf=S["psf"], oversample=["x_mean_0", 7, 6, 4])(S["grx"], S["gry"]))
    add("submodel", lambda S, v: S["pm"].model)
    add("copy-psf", lambda S, v: S["pm"].copy())
    add("bounds", lambda S, v: [pf.get_default_sersic_bounds(), pf.get_default_gen_sersic_bounds(), pf.get_default_sersic_bounds(S["override"]), pf.get_default_gen_sersic_bounds(S["override"])])
    add("nuker", lambda S, v: M.Nuker2D(2, 3, 4, 4)(S["grx"], S["gry"]))
    add("core-sersic", lambda S, v: M.CoreSersic2D(2, 3, 1, 2, 4, 4, ellip=0.2)(S["grx"], S["gry"]))
    add("gen-sersic", lambda S, v: M.GenSersic2D(amplitude=2, r_eff=3, n=1, x_0=4, y_0=4, ellip=0.2, theta=0.3, c_0=0.5)(S["grx"], S["gry"]))
    add("enclosed", lambda S, v: [pf.sersic_enclosed(S["r"], 3, 6, 1.2, 0.1), pf.sersic_enclosed_inv(S["flux"] / 2, 3, 6, 1.2), pf.petrosian_profile(S["r"], 6, 1.2),
                                  pf.sersic_enclosed_model()(S["r"]), pf.petrosian_model()(S["r"]), pf.Ie_to_I0(S["flux"], 2), pf.I0_to_Ie(S["flux"], 2)])
    add("approximations", lambda S, v: [pf.PetroApprox.u2080_to_c2080(3.0), pf.PetroApprox.c2080_to_n(3.0), pf.PetroApprox.n_to_epsilon(2.0), pf.PetroApprox.p0502_to_epsilon(1.5)])
    # fits
    add("fit", lambda S, v: F.fit_model(S["blob"], S["gauss"])[0])
    add("fit-weights", lambda S, v: F.fit_model(S["maimg"], S["plane"], weights=S["weights"], fitter=af.LinearLSQFitter)[0])
    add("fit-compound", lambda S, v: F.fit_model(S["blob"], S["compound"], fitter=af.LevMarLSQFitter, calc_uncertainties=True)[0])
    add("fit-wrapped", lambda S, v: F.fit_model(S["small"], S["pw"], maxiter=3)[0])
    add("background", lambda S, v: F.fit_background(S["nanimg"])[0])
    add("background-own", lambda S, v: F.fit_background(S["img"], S["plane"], sigma=None)[0])
    add("background-masked", lambda S, v: F.fit_background(S["maimg"], sigma=1.5)[0])
    add("gaussian", lambda S, v: F.fit_gaussian2d(S["blob"]))
    add("fwhm-nan", lambda S, v: F.measure_fwhm(S["nanblob"], plot=v, printout=v), True)
    add("fit-nan", lambda S, v: F.fit_model(S["nanblob"], S["gauss"], weights=S["nanblob"])[0])
    add("plot-fit-nan", lambda S, v: F.plot_fit(S["sersic"], S["nanimg"], cbar=False)[2:])
    add("plot-target-nan", lambda S, v: U.plot_target(S["nanimg"], S["center"]))
    add("fwhm", lambda S, v: F.measure_fwhm(S["blob"], plot=v, printout=v), True)
    add("print-params", lambda S, v: F.print_model_params(S["pm"]))
    add("plot-fit", lambda S, v: F.plot_fit(S["pm"], S["img"])[2:])
    add("plot-fit-figure", lambda S, v: F.plot_fit(S["sersic"], S["cut"], figsize=S["figsize"], mode="oversample", center=S["center"])[2:])
    add("plot-fit-ccd", lambda S, v: F.plot_fit(S["sersic"], S["ccd"], center=S["center"], vmax=3)[2:])
    # profiles
    add("profile", lambda S, v: pf.calculate_petrosian(S["area"], S["flux"], S["aerr"], S["ferr"]))
    add("petrosian-radius", lambda S, v: pf.calculate_petrosian_r(S["r"], S["prof"], petrosian_err=S["perr"]))
    add("petrosian-radius-discrete", lambda S, v: pf.calculate_petrosian_r(S["r"], S["prof"], interp_kind=None))
    add("fraction-radius", lambda S, v: pf.fraction_to_r(0.5, S["r"], S["flux"], 12.0, flux_err=S["ferr"], r_petrosian_err=0.4))
    add("fraction-radius-discrete", lambda S, v: pf.fraction_to_r(0.5, S["r"], S["flux"], 12.0, interp_kind=None))
    add("concentration", lambda S, v: pf.calculate_concentration_index(0.2, 0.8, S["r"], S["flux"], 12.0))
    add("petrosian", lambda S, v: readings(pf.Petrosian(S["r"], S["area"], S["flux"], area_err=S["aerr"], flux_err=S["ferr"], verbose=v)), True)
    add("read", lambda S, v: readings(S["p"]))
    add("read-linear", lambda S, v: readings(S["p2"]))
    add("petrosian-lists", lambda S, v: readings(pf.Petrosian(S["rlist"], [x * 9 for x in S["rlist"]], [x * 5 for x in S["rlist"]], flux_err=S["rlist"], verbose=v)), True)
    add("profile-int", lambda S, v: pf.calculate_petrosian(S["rlist"], S["radii"][:5]))
    add("arcsec", lambda S, v: [S["p"].r_half_light_arcsec(S["wcs"]), S["p"].r_total_flux_arcsec(S["wcs"])])
    add("plot-profile", lambda S, v: S["p"].plot() and None)
    add("plot-cog", lambda S, v: S["p"].plot_cog() and None)
    add("plot-profile-area", lambda S, v: [S["p2"].plot(plot_r=False), S["p2"].plot_cog(radius_unit=None)] and None)
    add("imshow", lambda S, v: S["p"].imshow(S["pos"], 1.3, 0.3))
    # corrections
    add("correct", lambda S, v: readings(S["corr"].correct(S["p"])))
    add("estimate", lambda S, v: [float(S["corr"].estimate_n(S["p"])), float(S["corr"].estimate_epsilon(S["p2"]))])
    add("new-correction", lambda S, v: readings(pf.PetrosianCorrection(S["grid"], enforce_range=False).correct(S["p2"])))
    add("grid-values", lambda S, v: [S["corr"].unique_grid_values("n"), S["corr"].filter_grid("n", 1.5), S["corr"].grid_keys])
    add("plot-correction", lambda S, v: S["corr"].plot_correction(S["p"]) and None)
    add("generate", lambda S, v: pf.generate_petrosian_sersic_correction(None, psf=S["psf"], r_eff_list=[4], n_list=S["rlist"][:1], oversample=None, plot=v), True)
    add("generate-lists", lambda S, v: pf.generate_petrosian_sersic_correction(None, r_eff_list=S["relist"][:1], n_list=S["nlist"], oversample=S["window"], plot=False))
    add("correct-twice", lambda S, v: readings(S["corr"].correct(S["corr"].correct(S["p"]))))
    # utilities
    add("magnitudes", lambda S, v: [pf.hst_flux_to_abmag(S["fluxes"], S["header"]), pf.hst_flux_to_abmag(S["fluxlist"], S["hdict"])])
    add("angles", lambda S, v: [U.angular_to_pixel(3 * u.arcsec, S["wcs"]), U.pixel_to_angular(S["rlist"][2], S["wcs"]).value])
    add("shapes", lambda S, v: [U.elliptical_area_to_r(S["area"], 1.3), U.circle_area_to_r(S["area"]), U.ellip_to_elong(0.3), U.elong_to_ellip(1.3)])
    add("interpolate", lambda S, v: U.get_interpolated_values(S["r"], S["flux"], num=50))
    add("interpolate-off", lambda S, v: U.get_interpolated_values(S["r"], S["flux"], kind=None))
    add("closest", lambda S, v: [int(U.closest_value_index(0.3, S["prof"])), int(U.closest_value_index(20, S["flux"], growing=True))])
    add("radius-list", lambda S, v: [U.make_radius_list(30, 7), U.make_radius_list(30, 7, log=True)])
    add("sort", lambda S, v: U.natural_sort(S["words"]))
    add("match", lambda S, v: [np.asarray(a) for a in U.match_catalogs(S["ra1"], S["de1"], S["ra2"], S["de2"])[:1]])
    add("subtract", lambda S, v: U.cutout_subtract(S["img"], S["target"], 17, 42))
    add("subtract-int", lambda S, v: U.cutout_subtract(S["imgint"], S["target"], 0, 3))
    add("plot-target", lambda S, v: U.plot_target(S["img"], S["center"], size=20))
    add("ticks", lambda S, v: U.mpl_tick_frame())
    return C


# ------------------------------------------------------------------ results and state
def plain(r):
    """what a caller sees in a result, as nested lists of numbers"""
    n = type(r).__name__
    if r is None or isinstance(r, (str, bool, int, float, np.generic)):
        return r
    if n == "CCDData":
        return plain(np.asarray(r.data))
    if n == "SegmentationImage":
        return plain(np.asarray(r.data))
    if n == "SourceCatalog":
        return [plain(np.atleast_1d(getattr(getattr(r, c), "value", getattr(r, c)))) for c in ("label", "xcentroid", "ycentroid", "area", "segment_flux", "max_value")]
    if n == "Table":
        return [[c, plain(np.asarray(r[c]))] for c in r.colnames]
    if hasattr(r, "param_names") and hasattr(r, "parameters"):
        return [n, list(r.param_names), [float(x) for x in r.parameters], [bool(r.fixed[k]) for k in r.param_names],
                [list(r.bounds[k]) for k in r.param_names]]
    if hasattr(r, "unit") and hasattr(r, "value"):
        return plain(np.asarray(r.value))
    if isinstance(r, np.ma.MaskedArray):
        return plain(r.astype(float).filled(np.nan))
    if isinstance(r, np.ndarray):
        return [str(r.dtype.kind in "fc"), list(r.shape), [x for x in r.ravel().tolist()]]
    if isinstance(r, dict):
        return [[k, plain(r[k])] for k in sorted(r)]
    if isinstance(r, (list, tuple)):
        return [plain(x) for x in r]
    return "<%s>" % n


def seen(S):
    """digest of every shared input"""
    out = {}
    for k, v in S.items():
        n = type(v).__name__
        if k in ("cat", "src", "sources"):
            v = [plain(x) for x in (v if isinstance(v, list) else [v])]
        elif k == "apertures":
            v = [[np.asarray(a.positions), a.a, a.b, plain(a.theta)] for a in v]
        elif n == "Row":
            v = [str(v[c]) for c in v.colnames]
        elif n == "WCS":
            v = repr(v.to_header(relax=True)) + repr(v.pixel_shape)
        elif n == "PSFConvolvedModel2D":
            v = [plain(v), np.asarray(v.psf), v.oversample, v.psf_oversample, v.cache_grid]
        elif n == "Petrosian":
            v = [v.r_list, v.area_list, v.flux_list, v.area_err, v.flux_err, v.petrosian_list, v.petrosian_err, v.eta, v.epsilon,
                 v.epsilon_fraction, v.total_flux_fraction, v.interp_kind, v.interp_num, v.verbose]
        elif n == "PetrosianCorrection":
            v = [v.grid, v.enforce_range, v.weights, v.eta_keys]
        out[k] = vf.digest(v)
    return out


def functions():
    import petrofit

    out = {}
    for m in pkgutil.walk_packages(petrofit.__path__, "petrofit."):
        if ".tests" in m.name or m.name.endswith(("conftest", "_version")):
            continue
        mod = importlib.import_module(m.name)
        for n, f in vars(mod).items():
            if getattr(f, "__module__", None) != m.name:
                continue
            if inspect.isfunction(f):
                out[m.name + "." + n] = f
            elif inspect.isclass(f):
                for k, g in vars(f).items():
                    g = getattr(g, "__func__", g)
                    if inspect.isfunction(g):
                        out[m.name + "." + n + "." + k] = g
    return out


def settings():
    """defaults of the package's functions, and numpy's and matplotlib's settings"""
    import matplotlib

    d = {}
    for k, f in FUNCS.items():
        v = [x for x in (f.__defaults__ or ())] + [x for _, x in sorted((f.__kwdefaults__ or {}).items())]
        d[k] = vf.digest([x for x in v if not callable(x) or hasattr(x, "param_names")])
    return dict(defaults=vf.digest(sorted(d.items())), numpy=vf.digest([sorted(np.geterr().items()), repr(np.get_printoptions())]),
                matplotlib=vf.digest(repr(sorted(matplotlib.rcParams.items()))))


def one(S, name, show):
    from matplotlib import pyplot as plt

    fn = CALLS[name][0]
    with contextlib.redirect_stdout(io.StringIO()):
        ok, r = vf.raw(lambda: fn(S, bool(show)))
    plt.close("all")
    ev = dict(op="call", call=name, show=int(show), ok=int(ok))
    if ok:
        p = plain(r)
        ev["dig"], ev["v"] = vf.digest(p), p
    else:
        ev["dig"], ev["v"] = "raised", repr(r)[:120].replace("#", "")
    return ev


def alone(name):
    """the call on inputs nobody has used, without asking to see anything"""
    ev = one(scene(), name, 0)
    return dict(call=name, ok=ev["ok"], dig=ev["dig"], v=vf.enc(ev["v"]))


def session(seq):
    S = scene()
    tr = [dict(op="start", seen=seen(S), settings=settings())]
    for name, show in seq:
        ev = one(S, name, show)
        if ev["dig"] == REFS[name]["dig"]:
            ev["v"] = 0       # the digest says it all
        else:
            ev["v"] = vf.enc(ev["v"])
        ev["seen"], ev["settings"] = seen(S), settings()
        tr.append(ev)
    return tr


def walks(pairs, length):
    """the pairs of consecutive calls laid end to end (an Eulerian walk), cut into sessions"""
    nxt = {}
    for a, b in pairs:
        nxt.setdefault(a, []).append(b)
    stack, path = [pairs[0][0]], []
    while stack:
        a = stack[-1]
        if nxt.get(a):
            stack.append(nxt[a].pop())
        else:
            path.append(stack.pop())
    path.reverse()
    assert len(path) == len(pairs) + 1
    return [path[i:i + length + 1] for i in range(0, len(path) - 1, length)]


CALLS = REFS = FUNCS = None


def run(ctx):
    global CALLS, REFS, FUNCS
    import petrofit  # noqa: F401

    CALLS, FUNCS = calls(), functions()
    names = list(CALLS)
    refs = ctx.pmap(alone, names)
    REFS = {r["call"]: r for r in refs}
    path = os.path.join(ctx.dir, "refs.json")
    with open(path, "w") as f:
        json.dump(refs, f)
    shows = [i + 1 for i, n in enumerate(names) if CALLS[n][1]]
    recs = vf.records(ctx.model("C22Model", "CONSTANTS NCalls = %d\nShowing = {%s}\nObjects = {1, 2}\nINIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Repeatable\nPROPERTY Unchanged\nCHECK_DEADLOCK FALSE\n"
                                % (len(names), ", ".join(map(str, shows))), what="every call after every call, shown or not"), "CASE")
    pairs = [((p[0]["call"], p[0]["show"]), (p[1]["call"], p[1]["show"])) for p in recs]
    pairs = [pairs[i] for i in ctx.rng.permutation(len(pairs))]
    seqs = [[(names[c - 1], s) for c, s in w] for k in range(ctx.n(1, 3)) for w in walks([pairs[i] for i in ctx.rng.permutation(len(pairs))], 90)]
    ctx.judge("C22", ctx.pmap(session, seqs), "sessions in which every call follows every call", env={"VF_REFS": path})
