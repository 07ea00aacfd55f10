//! What each check covers, as reported in its evidence.
pub struct Meta {
    pub id: &'static str,
    /// functions of the repository that the harness executes symbolically
    pub functions: &'static [&'static str],
    pub bounds: &'static str,
    pub outside: &'static str,
    /// powers of two that the integer coordinates are divided by
    pub scales: &'static [i32],
    /// all tasks at every scale, rather than one scale per task in turn
    pub each: bool,
}

const TREE: &str = "items in families: up to 3 (thorough: 4) independent arbitrary boxes; 2 (thorough: 3) arbitrary boxes, single positions or empty boxes repeated through trees of 4 to 65 (thorough: 600) items; a single arbitrary box among up to 70001 (C02, C03: 5000) empty ones, node degrees 2 to 16, 1 to 8 levels; grids of 9 to 30 concrete boxes with one arbitrary one at the first, a middle or the last place; coordinates k*2^-s with |k| <= 1000 and s in {28, 0, -20, 60} in turn";
const TREE_OUT: &str = "more than 4 independent boxes in one index; degree 1; the position of an item along the Hilbert curve is over-approximated (every order that 2 values per axis can induce), its exact value is not claimed";

pub const META: &[Meta] = &[
    Meta { id: "C01", scales: &[28, 0, -20, 60], each: false, bounds: TREE, outside: TREE_OUT,
        functions: &["flatbush::Flatbush::{new, new_unsorted, new_empty, find_intersection_candidates, root_node, get_children, envelope}", "flatbush::hilbert::Hilbert::{new, safe_hilbert, hilbert}", "planar::primitives::Envelope::{new, of, empty, intersects, expand, merge, center}"] },
    Meta { id: "C02", scales: &[28, 0, -20, 60], each: false, bounds: TREE, outside: TREE_OUT,
        functions: &["flatbush::Flatbush::{new, new_unsorted, new_empty, find_self_intersection_candidates, get_children}", "planar::primitives::Envelope::{intersects, expand}"] },
    Meta { id: "C03", scales: &[28, 0, -20, 60], each: false, bounds: "pairs of such indexes: 26 (thorough: 32) combinations of empty, single, 2- and 3-box ones with repeated families of up to 65 (thorough: 257) items of different heights and degrees; coordinates k*2^-s, |k| <= 1000, s in {28, 0, -20, 60} in turn", outside: TREE_OUT,
        functions: &["flatbush::Flatbush::{new, new_unsorted, new_empty, find_other_rtree_intersection_candidates, get_children}", "planar::primitives::Envelope::intersects"] },
    Meta { id: "C04", scales: &[28, 0, -20, 60], each: false, bounds: TREE, outside: "negative distances; more than 4 independent boxes in one index; rounding of the query box for coordinates beyond the modelled range",
        functions: &["flatbush::Flatbush::find_candidates_within", "planar::primitives::Envelope::{buffer, intersects}"] },
    Meta { id: "C05", scales: &[28, 0, -20, 60], each: false, bounds: TREE, outside: TREE_OUT,
        functions: &["flatbush::Flatbush::{new, new_unsorted, new_empty, root_node, get_children, envelope}", "planar::primitives::Envelope::{expand, merge, of}"] },
    Meta { id: "C06", scales: &[28, 0, -20, 60], each: false, bounds: "1 to 3 arbitrary boxes with coordinates finite (|k| <= 50, times 2^-s with s in {28, 0, -20, 60} in turn), NaN or infinite, repeated through up to 9 items, degrees 2 and 8", outside: "larger sets; the exact value of an item's place along the Hilbert curve",
        functions: &["flatbush::Flatbush::{new, new_unsorted, new_empty, find_intersection_candidates, find_self_intersection_candidates}", "flatbush::hilbert::Hilbert::{new, safe_hilbert, hilbert, hilbert_normalized}", "planar::primitives::Envelope::{of, center, intersects}"] },
    Meta { id: "C08", scales: &[0, 28, -20, 60], each: true, bounds: "two arbitrary boxes (or single positions, or empty) and an arbitrary position; coordinates k*2^-s, |k| <= 1000 (thorough: 10^6), s in {0, 28, -20, 60}", outside: "rounding of buffer and center for coordinates of mixed magnitudes",
        functions: &["planar::primitives::Envelope::{new, empty, of, is_empty, validate, min, max, contains, intersects, merge, buffer, expand, center}"] },
    Meta { id: "C09", scales: &[0, 28, -20, 60], each: true, bounds: "two arbitrary intervals (or single positions, or empty) and an arbitrary position; coordinates k*2^-s, |k| <= 1000 (thorough: 10^6), s in {0, 28, -20, 60}", outside: "-",
        functions: &["linear::primitives::Envelope::{new, empty, of, is_empty, validate, contains, intersects, merge, expand}"] },
    Meta { id: "C10", scales: &[0, 28, -20, 60], each: true, bounds: "geometries of up to 5 parts (thorough: 6) of up to 5 (thorough: 20) arbitrary positions; coordinates k*2^-s, |k| <= 1000 (thorough: 10^6), s in {0, 28, -20, 60}", outside: "longer geometries",
        functions: &["planar::types::{Point, LineString, Polygon, MultiPoint, MultiLineString, MultiPolygon, Geometry, Empty}::{new, from, envelope}", "LineString::collect_from", "planar::primitives::{Position, Segment}::envelope"] },
    Meta { id: "C11", scales: &[0, 28, -20, 60], each: true, bounds: "up to 3 (thorough: 6) arbitrary segments or positions; coordinates k*2^-s, |k| <= 1000, s in {0, 28, -20, 60}", outside: "longer geometries",
        functions: &["linear::types::{Line, MultiLine, Point, MultiPoint}::*", "linear::primitives::Segment::{new, min, max, envelope, validate}"] },
    Meta { id: "C12", scales: &[0, 28, -20], each: true, bounds: "any segment and position; coordinates k*2^-s, |k| <= 20 (thorough: 100), s in {0, 28, -20}; refutations over the reals hold without the bound", outside: "inputs whose cross products round in f64",
        functions: &["planar::primitives::Segment::{new, position_location, contains, determinant}", "planar::primitives::Position::{cross, dot}"] },
    Meta { id: "C13", scales: &[0, 28, -20], each: true, bounds: "any two segments, not both degenerate; coordinates k*2^-s, |k| <= 100 (thorough: 1000), s in {0, 28, -20}; the crossing point up to rounding", outside: "two degenerate segments; inputs whose cross products round in f64",
        functions: &["planar::primitives::Segment::{intersect_segment, position_location, contains, length_squared}", "planar::primitives::Position::{cross, dot}"] },
    Meta { id: "C14", scales: &[0, 28, -20, 60], each: true, bounds: "lists of up to 5 (thorough: 11) arbitrary positions in each way of construction; pairs of geometries of up to 4 (thorough: 6) arbitrary positions each; coordinates k*2^-s, |k| <= 1000, s in {0, 28, -20, 60}", outside: "longer lists",
        functions: &["planar::types: every From, new and collect_from", "planar::primitives: From of Position, Segment, Triangle", "linear::types, linear::primitives: every From", "PartialEq of Geometry and its members", "PartialOrd of Position, SafePosition"] },
    Meta { id: "C15", scales: &[28, 0, -20], each: false, bounds: "all lines of up to 4 positions and rings of up to 4 distinct ones (thorough: 5); zigzags, spirals and combs of 10 to 30 positions with one (thorough: two) arbitrary vertices, lines and rings of up to 300 positions with one; coordinates k*2^-s, |k| <= 60, s in {28, 0, -20} in turn", outside: "other longer lines; inputs whose cross products round in f64",
        functions: &["planar::validation::line_string (LineString::validate)", "LineString::{segments_iter, build_rtree, is_closed}", "flatbush::Flatbush::find_self_intersection_candidates", "Segment::intersect_segment"] },
    Meta { id: "C16", scales: &[28, 0], each: false, bounds: "up to 10 line strings, of which arbitrary vertices: up to 4 (thorough: 5), the others concrete; coordinates k*2^-s, |k| <= 60, s in {28, 0} in turn", outside: "more arbitrary vertices; the order of the index is over-approximated",
        functions: &["planar::validation::multi_line_string (MultiLineString::validate)", "LineString::{validate, build_rtree, is_closed}", "flatbush::Flatbush::find_other_rtree_intersection_candidates", "Segment::intersect_segment"] },
    Meta { id: "C17", scales: &[28, 0], each: false, bounds: "polygons of up to 4 loops, or 19 of which three are near each other, of up to 12 vertices, in both directions: squares, triangles, L, U, notch and comb shapes with one (thorough: up to three) arbitrary vertices; coordinates k*2^-s, |k| <= 40, s in {28, 0} in turn", outside: "more arbitrary vertices; whether touching holes disconnect the interior",
        functions: &["planar::validation::polygon (Polygon::validate)", "planar::algorithms::loop_relation::find_loop_loop_relation", "LineString::validate", "flatbush::Flatbush::{new, find_self_intersection_candidates, find_other_rtree_intersection_candidates}"] },
    Meta { id: "C18", scales: &[28, 0], each: false, bounds: "up to 3 polygons, or 18 of which two are near each other, with and without holes, with one (thorough: up to three) arbitrary vertices; coordinates k*2^-s, |k| <= 40, s in {28, 0} in turn", outside: "more arbitrary vertices",
        functions: &["planar::validation::multi_polygon (MultiPolygon::validate)", "Polygon::validate", "planar::algorithms::loop_relation::find_loop_loop_relation"] },
    Meta { id: "C19", scales: &[28, 0, -20, 60], each: true, bounds: "up to 4 arbitrary points (thorough: 6); coordinates k*2^-s with s in {28, 0, -20, 60}, or NaN or infinite", outside: "more points",
        functions: &["planar::types::MultiPoint::{new, is_simple, make_simple, contains_point, num_points, is_empty}", "planar::validation::multi_point (MultiPoint::validate)"] },
    Meta { id: "C20", scales: &[0, 28], each: false, bounds: "geometries of up to 5 positions of which one coordinate, at any place, is NaN or infinite and the others arbitrary, |k| <= 50; predicates on up to 3 positions each coordinate of which is finite, NaN or infinite", outside: "longer geometries",
        functions: &["validate of Position, Segment, Envelope, Point, LineString, MultiPoint, MultiLineString, Polygon, MultiPolygon", "Geometry::{is_simple, boundary, envelope}", "Segment::{intersect_segment, position_location, contains}", "Envelope::*", "Flatbush::*"] },
    Meta { id: "C21", scales: &[0, 28, -20, 60], each: true, bounds: "lines of up to 9 positions, up to 4 line strings with arbitrary ends, up to 4 polygons of up to 3 loops; coordinates k*2^-s, s in {0, 28, -20, 60}", outside: "larger geometries",
        functions: &["boundary of LineString, MultiLineString, Polygon, MultiPolygon", "MultiPoint::{new, make_simple}"] },
    Meta { id: "C22", scales: &[0, 28, -20], each: true, bounds: "lines of up to 9 (thorough: 12) arbitrary positions and up to 3 parts; coordinates k*2^-s, s in {0, 28, -20}; lengths up to rounding", outside: "longer geometries",
        functions: &["LineString::{num_points, get_point, start_point, end_point, segments_iter, get_segment, is_closed, is_ring, is_simple, is_empty, length}", "MultiLineString::{is_closed, length, is_empty}", "Polygon::{is_empty, point_on_surface}", "MultiPolygon::{is_empty, point_on_surface}"] },
    Meta { id: "C23", scales: &[28, 0], each: true, bounds: "rings of 3 and 4 arbitrary vertices; pentagons, combs and spirals of up to 12 vertices with one or two (thorough: three) arbitrary ones, loops of 20 and 80 vertices with one; coordinates k*2^-s, |k| <= 60, s in {28, 0}", outside: "loops that are not simple; other longer loops",
        functions: &["Polygon::convex_hull", "planar::algorithms::convex_hull::find_convex_hull_of_simple_loop", "Segment::position_location"] },
    Meta { id: "C24", scales: &[0, 28], each: true, bounds: "each kind of geometry with up to 4 arbitrary positions; coordinates k*2^-s, s in {0, 28}", outside: "larger geometries",
        functions: &["planar::types::Geometry::{from, as_*, geometry_type, dimension, is_empty, is_simple, boundary, envelope}"] },
    Meta { id: "C27", scales: &[0, 28, -20], each: true, bounds: "any three positions; coordinates k*2^-s, |k| <= 1000 (thorough: 30000), s in {0, 28, -20}; lengths up to rounding", outside: "inputs whose products round in f64",
        functions: &["planar::primitives::Triangle::{new, signed_area, area, to_array}", "planar::primitives::Segment::{length, length_squared, determinant, validate}"] },
    Meta { id: "C28", scales: &[0, 28, -20], each: true, bounds: "any two positions and a factor; coordinates k*2^-s, |k| <= 1000 (thorough: 30000), s in {0, 28, -20}, or NaN or infinite for the extremes; quotients up to rounding", outside: "inputs whose sums or products round in f64; the sign of zero",
        functions: &["planar::primitives::Position::{add, sub, mul, div, dot, cross, min, max, min_max, from, to_hashable, validate}", "linear::primitives::Position::{the same}", "Coordinate::min_max", "Point::{new, x, y}"] },
];
