// Included *inside* Eigen::SparseMatrix (EIGEN_SPARSEMATRIX_PLUGIN).
// The library targets an Eigen newer than the distribution's 3.4.0; the only member it needs from there is
// setFromSortedTriplets. Semantics reproduced: input must be sorted in storage order (the newer Eigen's
// documented precondition; with unsorted input it yields a corrupt matrix), so an unsorted input is reported loudly.
template<typename InputIterators>
void setFromSortedTriplets(const InputIterators& begin, const InputIterators& end) {
    bool first = true;
    StorageIndex last_outer = 0, last_inner = 0;
    for (InputIterators it = begin; it != end; ++it) {
        const StorageIndex outer = StorageIndex(IsRowMajor ? it->row() : it->col());
        const StorageIndex inner = StorageIndex(IsRowMajor ? it->col() : it->row());
        if (!first && (outer < last_outer || (outer == last_outer && inner < last_inner))) {
            throw std::logic_error("setFromSortedTriplets: triplets are not sorted in storage order");
        }
        first = false;
        last_outer = outer;
        last_inner = inner;
    }
    setFromTriplets(begin, end);
}
