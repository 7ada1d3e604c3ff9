// Injected into Eigen::SparseMatrix via EIGEN_SPARSEMATRIX_PLUGIN: the system Eigen (3.4.0) lacks
// setFromSortedTriplets(), which /repo uses in three translation units.
// The contract of the newer Eigen function is that the triplets are sorted by (outer, inner) index;
// out of contract input is reported, not silently sorted.
template<typename InputIterators>
void setFromSortedTriplets(const InputIterators& begin, const InputIterators& end) {
    Index lastOuter = -1, lastInner = -1;
    for (InputIterators it(begin); it != end; ++it) {
        const Index outer = IsRowMajor ? it->row() : it->col();
        const Index inner = IsRowMajor ? it->col() : it->row();
        if (outer < lastOuter || (outer == lastOuter && inner < lastInner)) {
            throw "VERIF: setFromSortedTriplets called with unsorted triplets";
        }
        lastOuter = outer; lastInner = inner;
    }
    this->setFromTriplets(begin, end);
}
