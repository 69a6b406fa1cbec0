// Stand-in for tinyobjloader (not available in this sandbox): the part of the v1 API that
// tinymesh's Mesh::loadOBJ uses.  Positions only, polygons fan-triangulated, 1-based and
// negative (relative) vertex references.
#ifndef VERIF_TINY_OBJ_LOADER_H
#define VERIF_TINY_OBJ_LOADER_H
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

namespace tinyobj {

typedef float real_t;

struct index_t {
    int vertex_index = -1;
    int normal_index = -1;
    int texcoord_index = -1;
};

struct mesh_t {
    std::vector<index_t> indices;
    std::vector<unsigned char> num_face_vertices;
    std::vector<int> material_ids;
};

struct shape_t {
    std::string name;
    mesh_t mesh;
};

struct material_t {
    std::string name;
};

struct attrib_t {
    std::vector<real_t> vertices;
    std::vector<real_t> normals;
    std::vector<real_t> texcoords;
    std::vector<real_t> colors;
};

inline bool LoadObj(attrib_t *attrib, std::vector<shape_t> *shapes, std::vector<material_t> *materials,
                    std::string *warn, std::string *err, const char *filename, const char *mtl_basedir = nullptr,
                    bool triangulate = true, bool default_vcols_fallback = true) {
    (void)warn;
    (void)mtl_basedir;
    (void)default_vcols_fallback;
    attrib->vertices.clear();
    attrib->normals.clear();
    attrib->texcoords.clear();
    attrib->colors.clear();
    shapes->clear();
    if (materials) materials->clear();

    std::ifstream reader(filename, std::ios::in);
    if (!reader.is_open()) {
        if (err) *err = std::string("Cannot open file [") + filename + "]\n";
        return false;
    }

    shape_t shape;
    std::string line;
    while (std::getline(reader, line)) {
        std::istringstream ss(line);
        std::string key;
        if (!(ss >> key)) continue;
        if (key == "v") {
            std::string tok;
            for (int d = 0; d < 3; d++) {
                real_t val = 0.0f;
                if (ss >> tok) val = (real_t)std::strtod(tok.c_str(), nullptr);
                attrib->vertices.push_back(val);
            }
        } else if (key == "f") {
            const int nv = (int)(attrib->vertices.size() / 3);
            std::vector<int> poly;
            std::string tok;
            while (ss >> tok) {
                const int id = std::atoi(tok.c_str());
                if (id == 0) {
                    if (err) *err = "Failed to parse `f' line\n";
                    return false;
                }
                poly.push_back(id > 0 ? id - 1 : nv + id);
            }
            const size_t n = poly.size();
            if (n < 3) continue;
            if (triangulate) {
                for (size_t k = 2; k < n; k++) {
                    const int ids[3] = { poly[0], poly[k - 1], poly[k] };
                    for (int id : ids) {
                        index_t idx;
                        idx.vertex_index = id;
                        shape.mesh.indices.push_back(idx);
                    }
                    shape.mesh.num_face_vertices.push_back(3);
                }
            } else {
                for (int id : poly) {
                    index_t idx;
                    idx.vertex_index = id;
                    shape.mesh.indices.push_back(idx);
                }
                shape.mesh.num_face_vertices.push_back((unsigned char)n);
            }
        } else if (key == "o" || key == "g") {
            if (!shape.mesh.indices.empty()) {
                shapes->push_back(shape);
                shape = shape_t();
            }
            ss >> shape.name;
        }
    }
    if (!shape.mesh.indices.empty()) shapes->push_back(shape);
    return true;
}

}  // namespace tinyobj
#endif
