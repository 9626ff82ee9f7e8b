#include "ffcl/common/math/heuristics/Distances.hpp"
#include <vector>
using D = std::vector<double>::iterator; using I = std::vector<int>::iterator; using U = std::vector<unsigned>::iterator;
using namespace ffcl::common::math::heuristics;
void use(D a, D b, D c, D d, I i, I j, I k, I l, U u, U v, U w, U x) {
    squared_euclidean_distance(a, b, c, d); squared_euclidean_distance_from_origin(a, b); euclidean_distance(a, b, c, d); euclidean_distance_from_origin(a, b);
    manhattan_distance(a, b, c, d); manhattan_distance_from_origin(a, b); manhattan_distance(i, j, k, l); manhattan_distance_from_origin(i, j);
    unsigned_manhattan_distance(u, v, w, x); unsigned_manhattan_distance_from_origin(u, v); cosine_similarity(a, b, c, d); levenshtein_distance(i, j, k, l);
    auto_distance(a, b, c, d); auto_distance(i, j, k, l); auto_distance(u, v, w, x); auto_distance_from_origin(a, b); auto_distance_from_origin(i, j); auto_distance_from_origin(u, v);
}
