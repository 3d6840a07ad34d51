A = "TLA+/TLC: "
TECH = {
    "C01": A + "all combinations of argument kinds enumerated by TLC, recorded apertures validated against exact pixel overlaps",
    "C02": A + "all short histories of mask calls replayed, every recorded mask validated pixelwise",
    "C03": A + "enumerated frames and cutouts replayed, recorded photometry validated against the frame-level definition",
    "C04": A + "every small detection pattern replayed, recorded maps and catalogues validated against 8-connectedness",
    "C05": A + "trace validation of recorded profiles against the exact definition and error propagation",
    "C06": A + "every small profile enumerated (theorems model checked) and replayed, recorded radii validated",
    "C07": A + "trace validation of recorded radii, fluxes and concentrations against first crossing of the curve of growth",
    "C08": A + "all histories of a heap of Petrosian objects replayed, every reading validated",
    "C09": A + "trace validation of recorded errors against the bracketing rule",
    "C10": A + "all sessions with a correction grid replayed, estimates and corrections validated",
    "C11": A + "all worker schedules and file states model checked and replayed, rows validated",
    "C12": A + "every image request of a small domain replayed and validated pixelwise",
    "C13": A + "every kind of sampling configuration replayed, images validated against sample-convolve-bin",
    "C14": A + "complete configuration state graph model checked, every transition replayed",
    "C15": A + "all histories of evaluations and changes replayed against the heap specification",
    "C16": A + "all histories over heaps of wrappers replayed against the heap specification",
    "C17": A + "every combination of fit arguments replayed, results validated against the normal equations",
    "C18": A + "exact Sersic relations computed by TLC, recorded values of the helpers validated",
    "C19": A + "histories of bounds calls replayed, recorded profiles validated against isophotes and anchors",
    "C20": A + "every combination of units, WCS and input forms replayed and validated",
    "C21": A + "all small inputs replayed, recorded results validated against the definitions",
    "C22": A + "sessions in which every call follows every call replayed against the purity specification",
    "C23": A + "every placement of small cutouts replayed and validated pixelwise",
    "C25": A + "histories of settings and figures model checked and replayed, what is drawn recorded and validated",
    "C24": A + "moves of images model checked and replayed, recorded measurements validated against analytic light",
}
