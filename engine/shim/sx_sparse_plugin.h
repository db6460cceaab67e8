// member added to Eigen::SparseMatrix by later Eigen releases than the one installed here; duplicates are summed, like setFromTriplets
template<typename InputIterators> void setFromSortedTriplets(const InputIterators& begin, const InputIterators& end) { setFromTriplets(begin, end); }
