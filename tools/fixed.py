"""Writes the 'fixed' list of known_findings.json from the fix: commits of /repo."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # (words of the commit subject, property)
    ("astra:", "C23"), ("lprec:", "C23"), ("align_joint saves", "C24"), ("write_tiff adds", "C24"), ("recognise shared", "C24"), ("detector_drift", "C18"),
    ("rotation axis of each slice in art", "C01"), ("gridrec reconstructs slices with different", "C01"),
    ("gridrec reads past", "C21"), ("tv takes the gradient", "C03"), ("free the work arrays", "C21"),
    ("tikh's reg_data", "C01"), ("recon leaves no state", "C06"), ("pass contiguous angles", "C05"),
    ("reject reconstruction arguments", "C06"), ("vector2 and vector3 use", "C19"),
    ("vector leaves pixels", "C19"), ("reject vector data", "C06"), ("copy views of shared", "C07"),
    ("distribute arrays of different types", "C07"), ("np.int is gone", "C18"),
    ("single slices (nchunk=0)", "C01"), ("median_filter3d and remove_outlier3d of other", "C05"),
    ("sobel_filter and remove_outlier1d", "C09"), ("filters report the errors", "C06"),
    ("remove_outlier_cuda", "C10"), ("remove_ring fills out", "C11"),
    ("inpainter_morph of arrays", "C12"), ("3D median inpainter", "C12"),
    ("remove_ring reads outside", "C21"), ("remove_ring skips the last", "C11"),
    ("remove_ring rejects centers", "C06"), ("pad boolean", "C13"), ("trim_sinogram slices", "C13"),
    ("sino_360_to_180", "C13"), ("downsample lengths", "C13"), ("along negative axes", "C13"),
    ("normalize_nf with averaging", "C08"), ("retrieve_phase without", "C16"),
    ("retrieve_phase of projections with an odd", "C16"), ("remove_stripe_ti removes NaN", "C14"),
    ("remove_stripe_ti of sinograms without", "C14"),
    ("stripes_detect3d and stripes_mask3d read", "C21"), ("stripes_detect3d returns weights", "C15"),
    ("find_slits_corners", "C18"), ("shift_images and add_jitter", "C18"),
    ("write_center with algorithms", "C17"), ("use the ratio of the mask", "C17"),
    ("discrete_cdf", "C18"), ("calc_intensity", "C16"), ("normalize_bg rejects", "C06"), ("keep the rays off", "C02"), ("osem and ospml of slices", "C22"), ("penalised likelihood of data", "C03"), ("grad and tikh with an automatic", "C03"),
    ("split nothing along a negative", "C07"), ("chunked the filtered axis", "C10"),
    ("outside a mask of another shape", "C06"),
    ("for projections of a single row or column", "C16"), ("mask_empty_slice failed", "C17"),
    ("left the caller's projections scaled", "C05"), ("align_seq did not recover", "C18"),
    ("vector2 and vector3 update", "C19"), ("reject unknown axes and objects", "C19"),
    ("read outside its window", "C21"), ("read outside grids of a single", "C21"),
    ("lost in-place results", "C07"), ("hung when a worker", "C07"),
]
EXTRA = {}


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"],
                         capture_output=True, text=True).stdout.splitlines()
    out = []
    for line in log:
        h, s = line.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        m = [p for w, p in PROP if w in s]
        assert len(m) == 1, (s, m)
        out.append("fixed: property=%s %s %s" % (m[0], h[:12], s[5:]))
    p = os.path.join(V, "known_findings.json")
    k = json.load(open(p))
    k["fixed"] = out
    with open(p, "w") as f:
        json.dump(k, f, indent=1)
        f.write("\n")
    print(len(out))


main()
