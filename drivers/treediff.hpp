// Bit for bit comparison of cluster trees.
#pragma once
#include "common.hpp"
namespace drv {
template <class C>
inline string tree_difference(const Cluster<C> &a, const Cluster<C> &b) {
    if (a.get_offset() != b.get_offset() || a.get_size() != b.get_size()) return cat("a cluster of offset ", a.get_offset(), " and size ", a.get_size(), " became one of offset ", b.get_offset(), " and size ", b.get_size());
    if (a.get_rank() != b.get_rank()) return cat("the rank of the cluster (", a.get_offset(), ",", a.get_size(), ") changed from ", a.get_rank(), " to ", b.get_rank());
    if (a.get_counter() != b.get_counter()) return cat("the counter of the cluster (", a.get_offset(), ",", a.get_size(), ") changed from ", a.get_counter(), " to ", b.get_counter());
    if (a.get_depth() != b.get_depth() || a.is_root() != b.is_root()) return cat("the depth of the cluster (", a.get_offset(), ",", a.get_size(), ") changed");
    C ra = a.get_radius(), rb = b.get_radius();
    if (!bits_equal(&ra, &rb, 1)) return cat("the radius of the cluster (", a.get_offset(), ",", a.get_size(), ") changed from ", ra, " to ", rb);
    auto &ca = a.get_center(), &cb = b.get_center();
    if (ca.size() != cb.size()) return "the dimension of a center changed";
    for (size_t i = 0; i < ca.size(); i++)
        if (!bits_equal(&ca[i], &cb[i], 1)) return cat("a coordinate of the center of the cluster (", a.get_offset(), ",", a.get_size(), ") changed from ", ca[i], " to ", cb[i]);
    if (a.get_children().size() != b.get_children().size()) return cat("the number of children of the cluster (", a.get_offset(), ",", a.get_size(), ") changed");
    for (size_t i = 0; i < a.get_children().size(); i++) {
        string d = tree_difference(*a.get_children()[i], *b.get_children()[i]);
        if (!d.empty()) return d;
    }
    return "";
}
template <class C>
inline string cluster_difference(const Cluster<C> &a, const Cluster<C> &b) {
    if (a.get_minclustersize() != b.get_minclustersize()) return "the minimal cluster size changed";
    if (a.get_maximal_depth() != b.get_maximal_depth() || a.get_minimal_depth() != b.get_minimal_depth()) return "the minimal or maximal depth changed";
    if (a.is_permutation_local() != b.is_permutation_local()) return "the permutation is local for one and not for the other";
    if (a.get_permutation() != b.get_permutation()) return "the permutation changed";
    auto &pa = a.get_clusters_on_partition(), &pb = b.get_clusters_on_partition();
    if (pa.size() != pb.size()) return cat("a partition of ", pa.size(), " parts became one of ", pb.size());
    for (size_t i = 0; i < pa.size(); i++)
        if (!pb[i] || pa[i]->get_offset() != pb[i]->get_offset() || pa[i]->get_size() != pb[i]->get_size() || pa[i]->get_depth() != pb[i]->get_depth()) return cat("part ", i, " of the partition changed");
    return tree_difference(a, b);
}
} // namespace drv
