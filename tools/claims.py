LEAN = {"P09", "P10", "P11"}
STD = ("All obligations generated from the current source of the functions under contract are discharged for every dimension and value. Trusted: the verifier "
       "(pyvc), its library contracts for numpy/scipy, exact real arithmetic. ")
CLAIMED = {
    "P01": ("proof", STD), "P02": ("proof", STD), "P03": ("proof", STD), "P04": ("proof", STD),
    "P05": ("proof", STD), "P06": ("proof", STD), "P08": ("proof", STD),
    "P07": ("proof", "Breadth-first closure over the abstract states of the real objects (every operation symbolically executed from every reachable abstract state, "
                     "all argument values and sizes). " + STD),
    "P09": ("proof", STD), "P10": ("proof", STD), "P11": ("proof", STD), "P12": ("proof", STD), "P13": ("proof", STD),
    "P14": ("proof", STD + "Loops over orders and epochs of any length by the loop rule (DESIGN 2a); the contracts labelled bounded (concrete short orders) come on top, "
                     "and the entry point iter_lin_solve and left-out arguments combined with several epochs are only under those (at most 3 rows and epochs). "),
    "P15": ("proof", STD), "P16": ("proof", STD + "Lists that mix repeated and N-row operators: at most 3 quantities (bounded). "), "P17": ("proof", STD),
    "P18": ("proof", STD + "Orthonormality, annihilation and completeness of the triplets follow from the selected vectors by lean/null.lean and the assumed contract of svd. "),
    "P19": ("proof", STD),
    "P20": ("proof", STD), "P21": ("proof", STD), "P22": ("proof", STD + "The file is a symbolic file system holding one object; the format on disk (pickle, netcdf) is trusted. "),
    "P23": ("proof", STD),
    "P24": ("other", "Bounded in the number of dimensions of meshes and curves (at most 3 coordinates) and in the number of curves of a time-series plot (2), for all values, sizes and resolutions; "
                     "chains, contour lines and vectors are unbounded. Drawing calls are recorded, not rendered. " + STD),
    "P25": ("other", "Fourteen recorded findings (known_findings.json): the examples folder holds the listed defects, and it may not be changed here. "
            "Everything else is discharged: identity problems, random and noisy linear maps, data-set loaders, the contour and comparison drivers and every command of the command line (the drivers replaced by stand-ins that keep their arguments) for all values and sizes; "
            "bounded in the length of list options (2), the numbers of quantities, times and rows; the covariance, dimension and Poisson drivers and the mesh figure are checked numerically only (seed reproduces the run). "
            "The FEniCS solver, the paper's figure script and the layout of figures are not covered."),
}
NA = {}
