"""Which functions' contracts decide which property. A key ending in * is a prefix."""
TRI = ["triangular::*"]
CHO = ["cholesky::*"]
IDX = ["index::*", "root::check_square"]
HH = ["householder::*", "reflection::*"]
PLAN = {
    "C03": ["triangular::IntoTriangular*", "triangular::Triangular*", *IDX],
    "C04": [*TRI, *IDX],
    "C05": ["cholesky::Cholesky*", "triangular::IntoTriangular*", *IDX],
    "C06": [*CHO, *TRI, *IDX],
    "C07": [*HH, "qr::QRInto*", "qr::QR[*", "qr::Clone*", "qr::QRDecomp::generate_q", "qr::QRDecomp::into_*", "triangular::IntoTriangular*", *IDX],
    "C08": ["qr::*", *HH, *TRI, *IDX],
    "C09": ["reflection::*"],
    "C10": ["tridiagonal::*", "triangular::IntoTriangular*", *HH, *IDX],
    "C11": ["bidiagonal::*", *HH, *IDX],
    "C01": ["triangular::*", "cholesky::*", "qr::*", "tridiagonal::*", "bidiagonal::*", "reflection::*", "householder::*", "eigh::*", "svd::*", "givens::*", "norm::*", *IDX],
    "C02": ["triangular::*", "cholesky::*", "qr::*", "tridiagonal::*", "bidiagonal::*", "reflection::*", "householder::*", "eigh::*", "svd::*", "givens::*", *IDX],
    "C12": ["eigh::symmetric_eig", "eigh::delimit_subproblem", "eigh::compute_2x2_eigvals", "eigh::wilkinson_shift", "eigh::Eigh*", "eigh::EigVals*", "tridiagonal::*", "givens::*", "triangular::IntoTriangular*", *HH, *IDX],
    "C13": ["svd::svd", "svd::delimit_subproblem", "svd::cancel*", "svd::compute_2x2_uptrig_svd", "svd::SVDInto*", "svd::SVD[*", "bidiagonal::*", "givens::*", *HH, *IDX],
    "C14": ["eigh::EigSort*", "eigh::cmp_floats", "svd::SvdSort*"],
    "C15": ["norm::*"],
}
PROOF = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"]
MODE_OF = {"C01": "S", "C02": "S"}
MODES = {"F": "elements are exact reals (one zero, no NaN, no rounding)", "S": "elements are opaque values without any arithmetic law (covers every bit pattern): shapes, indices, errors, frames and data movement only"}
BOUNDED = {}
ASSUME = ["mode F treats machine arithmetic as real arithmetic", "ndarray, core and num-traits operations meet the contracts in contracts/*.rs", "array dimensions fit isize and allocation succeeds", "termination of loops without a decreases clause is not proved"]
NOTES = {}
NA = {}
