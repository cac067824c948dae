"""level and note of every claimed property (read by gen_manifest.py)"""
DRV = ("The bounded concrete driver (seeded cases on the real library under AddressSanitizer against independent "
       "references) stands in for what is not under contract and searches failing inputs; it is never counted as proved.")
P = {
    "C01": "Limit checks, set and setLimits of every numeric attribute type and of the vector attribute under contract (exact value stored, domain_error exactly outside the limits, nothing changed on a throw, stored values within the limits), the defaults and limits chosen by the parameter structures and their update when bimodality or the dimension changes, all obligations discharged for any value and size; string and enumeration attributes and JSON are covered by the bounded driver. ",
    "C02": "CircularBuffer: clear, resize, push, reads, size and mean under contract, all obligations discharged for any history length (ghost push count as data structure invariant). ",
    "C03": "Phrase element access, size queries, recording (joint, input, output), connection of shared arrays, trimming and clearing under contract with a class invariant over the heap (stream storage, capacity, ownership), all obligations discharged for any length and dimension. ",
    "C04": "Phrase copy construction, assignment, destruction and dimension changes under contract over an explicit heap (liveness, ownership, no double free, deep copy), all obligations discharged. ",
    "C06": "Gaussian likelihood (joint, input, bimodal) under contract, all obligations discharged over the reals for any dimension. ",
    "C07": "Matrix product, transpose, row exchange, Gauss-Jordan inversion (elimination invariant E*A=B, unit columns, determinant bookkeeping) under contract, discharged for any size over the reals; effect of elementary row operations on the determinant is a trusted textbook lemma. ",
    "C08": "Gaussian regression and matrix product under contract, discharged for any dimension over the reals. ",
    "C09": "GMM observation probabilities, likelihood, responsibilities, regression and coefficient normalisation under contract, discharged for any number of components and dimensions over the reals. ",
    "C10": "Regularisation, initial parameters and covariance offset under contract, discharged; the EM step itself is covered by the bounded driver. ",
    "C11": "Per-class smoothed log-likelihood history, normalisation of instantaneous and smoothed likelihoods over the classes and choice of the likeliest label (GMM and hierarchical HMM) under contract, discharged for any number of classes; filtering of whole models is covered by the bounded driver. ",
    "C12": "Forward initialisation and update (joint, input-only and bimodal observations; ergodic and left-right), per-observation filtering, reset, window of states and progress under contract, discharged over the reals for any number of states. ",
    "C13": "Baum-Welch forward / backward recursions, uniform and left-right set-up, cyclic entry, normalisation and the re-estimation of occupancies, mixture coefficients, priors and transitions from the posteriors of any training set under contract, discharged for any number of states and phrases over the reals; means and covariances are covered by the bounded driver. ",
    "C14": "Exit probabilities of the states of a class (set-up, single exit point, default of the last state), set-up and normalisation of the class priors and transitions, likelihood levels of the hierarchy and the first frame of the joint forward recursion under contract, discharged for any number of classes and states; later frames of the joint recursion and adding / removing classes are covered by the bounded driver. ",
    "C19": "Window of states, its normalisation, per-state regression and the three regression estimators of a class (full, window, likeliest) under contract, discharged over the reals for any number of states and dimensions; mixing over classes is covered by the bounded driver. ",
    "C15": "Euclidean distance, filtering (every distance and the nearest centre), reset and deep copies under contract, discharged for any number of clusters and dimensions; initialisation, the update of the centres and the training loop are covered by the bounded driver. ",
    "C18": "Copy construction and assignment of the parameter structures, Gaussian distributions, classes (GMM, HMM), KMeans and whole GMM / hierarchical HMM models under contract (every field equal, own storage, every class of the copy uses the copy's parameters, refused while training), discharged for any size; training, removal and retraining histories are covered by the bounded driver. ",
    "C17": "Stopping rule, training loop of a class (step count, stopping at the first step where the rule holds, bounds 1000/min/max, progress in [0,1], final status), termination and cancellation under contract, discharged for any behaviour of the model's virtual functions and cancellation at any point; the background-thread bookkeeping of Model::train is covered by the bounded driver. ",
    "C21": "Phrase mean / standard deviation / minmax / rescale and the training-set mean / standard deviation / minmax under contract, discharged over the reals for any number of phrases, lengths and dimensions. ",
}
LEVEL = {p: "proof" for p in P}
NOTES = {p: t + DRV for p, t in P.items()}
for p in ["C%02d" % i for i in range(1, 22)]:
    if p not in NOTES:
        NOTES[p] = "bounded: " + DRV
