// Stand-in for tinyply 2.x (not available in this sandbox): the part of the API that tinymesh
// uses.  Reads ascii and binary_little_endian files, writes both.
#ifndef VERIF_TINYPLY_H
#define VERIF_TINYPLY_H
#include <cstdint>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace tinyply {

enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };

inline size_t type_size(Type t) {
    switch (t) {
        case Type::INT8:
        case Type::UINT8:
            return 1;
        case Type::INT16:
        case Type::UINT16:
            return 2;
        case Type::INT32:
        case Type::UINT32:
        case Type::FLOAT32:
            return 4;
        case Type::FLOAT64:
            return 8;
        default:
            return 0;
    }
}

inline const char *type_name(Type t) {
    switch (t) {
        case Type::INT8: return "char";
        case Type::UINT8: return "uchar";
        case Type::INT16: return "short";
        case Type::UINT16: return "ushort";
        case Type::INT32: return "int";
        case Type::UINT32: return "uint";
        case Type::FLOAT32: return "float";
        case Type::FLOAT64: return "double";
        default: return "INVALID";
    }
}

inline Type type_from(const std::string &s) {
    if (s == "char" || s == "int8") return Type::INT8;
    if (s == "uchar" || s == "uint8") return Type::UINT8;
    if (s == "short" || s == "int16") return Type::INT16;
    if (s == "ushort" || s == "uint16") return Type::UINT16;
    if (s == "int" || s == "int32") return Type::INT32;
    if (s == "uint" || s == "uint32") return Type::UINT32;
    if (s == "float" || s == "float32") return Type::FLOAT32;
    if (s == "double" || s == "float64") return Type::FLOAT64;
    return Type::INVALID;
}

class Buffer {
    std::vector<uint8_t> data;

public:
    Buffer() {}
    explicit Buffer(size_t n) : data(n) {}
    uint8_t *get() { return data.data(); }
    const uint8_t *get() const { return data.data(); }
    uint8_t *get_mutable() { return data.data(); }
    const uint8_t *get_const() const { return data.data(); }
    size_t size_bytes() const { return data.size(); }
    void append(const void *p, size_t n) {
        const uint8_t *b = (const uint8_t *)p;
        data.insert(data.end(), b, b + n);
    }
};

struct PlyData {
    Type t = Type::INVALID;
    Buffer buffer;
    size_t count = 0;
    bool isList = false;
};

struct PlyProperty {
    std::string name;
    Type propertyType = Type::INVALID;
    bool isList = false;
    Type listType = Type::INVALID;
    size_t listCount = 0;
};

struct PlyElement {
    std::string name;
    size_t size = 0;
    std::vector<PlyProperty> properties;
};

struct PlyFile {
    PlyFile() {}

    bool parse_header(std::istream &is) {
        std::string line;
        bool gotMagic = false;
        while (std::getline(is, line)) {
            if (!line.empty() && line.back() == '\r') line.pop_back();
            std::istringstream ls(line);
            std::string key;
            ls >> key;
            if (key == "ply" || key == "PLY") {
                gotMagic = true;
            } else if (key == "comment") {
                comments_.push_back(line.size() > 8 ? line.substr(8) : "");
            } else if (key == "format") {
                std::string f;
                ls >> f;
                binary_ = (f != "ascii");
            } else if (key == "element") {
                PlyElement e;
                ls >> e.name >> e.size;
                elements_.push_back(e);
            } else if (key == "property") {
                if (elements_.empty()) throw std::runtime_error("no elements defined; file is malformed");
                PlyProperty p;
                std::string t;
                ls >> t;
                if (t == "list") {
                    std::string lt, pt;
                    ls >> lt >> pt;
                    p.isList = true;
                    p.listType = type_from(lt);
                    p.propertyType = type_from(pt);
                } else {
                    p.propertyType = type_from(t);
                }
                ls >> p.name;
                elements_.back().properties.push_back(p);
            } else if (key == "end_header") {
                return gotMagic;
            }
        }
        return false;
    }

    std::shared_ptr<PlyData> request_properties_from_element(const std::string &elementKey,
                                                             const std::vector<std::string> propertyKeys,
                                                             const uint32_t list_size_hint = 0) {
        (void)list_size_hint;
        if (elements_.empty()) throw std::runtime_error("header had no elements defined. malformed file?");
        for (auto &e : elements_) {
            if (e.name != elementKey) continue;
            auto d = std::make_shared<PlyData>();
            for (const auto &k : propertyKeys) {
                bool found = false;
                for (auto &p : e.properties) {
                    if (p.name != k) continue;
                    found = true;
                    d->t = p.propertyType;
                    d->isList = p.isList;
                }
                if (!found) throw std::invalid_argument("one of the property keys was not found in the header: " + k);
            }
            d->count = e.size;
            requests_.push_back({ elementKey, propertyKeys, d });
            return d;
        }
        throw std::invalid_argument("the element key was not found in the header: " + elementKey);
    }

    void read(std::istream &is) {
        for (auto &e : elements_) {
            for (size_t i = 0; i < e.size; i++) {
                for (auto &p : e.properties) {
                    size_t n = 1;
                    if (p.isList) n = (size_t)read_scalar_as_u64(is, p.listType);
                    std::vector<uint8_t> bytes(n * type_size(p.propertyType));
                    for (size_t k = 0; k < n; k++) {
                        read_scalar(is, p.propertyType, bytes.data() + k * type_size(p.propertyType));
                    }
                    for (auto &r : requests_) {
                        if (r.element != e.name) continue;
                        for (auto &k : r.keys) {
                            if (k == p.name) r.data->buffer.append(bytes.data(), bytes.size());
                        }
                    }
                }
            }
        }
        if (is.fail()) throw std::runtime_error("stream failed while reading");
    }

    void add_properties_to_element(const std::string &elementKey, const std::vector<std::string> propertyKeys,
                                   const Type type, const size_t count, const uint8_t *data, const Type listType,
                                   const size_t listCount) {
        Out o;
        o.element = elementKey;
        o.keys = propertyKeys;
        o.type = type;
        o.count = count;
        o.data = data;
        o.listType = listType;
        o.listCount = listCount;
        outs_.push_back(o);
    }

    std::vector<PlyElement> get_elements() const { return elements_; }
    std::vector<std::string> get_info() const { return {}; }
    std::vector<std::string> &get_comments() { return comments_; }
    bool is_binary_file() const { return binary_; }

    void write(std::ostream &os, bool isBinary) {
        os << "ply\n" << (isBinary ? "format binary_little_endian 1.0" : "format ascii 1.0") << "\n";
        for (auto &c : comments_) os << "comment " << c << "\n";
        std::vector<std::string> names;
        for (auto &o : outs_) {
            bool seen = false;
            for (auto &n : names) seen = seen || n == o.element;
            if (!seen) names.push_back(o.element);
        }
        for (auto &n : names) {
            bool first = true;
            for (auto &o : outs_) {
                if (o.element != n) continue;
                if (first) os << "element " << n << " " << o.count << "\n";
                first = false;
                for (auto &k : o.keys) {
                    if (o.listType != Type::INVALID) {
                        os << "property list " << type_name(o.listType) << " " << type_name(o.type) << " " << k << "\n";
                    } else {
                        os << "property " << type_name(o.type) << " " << k << "\n";
                    }
                }
            }
        }
        os << "end_header\n";
        for (auto &n : names) {
            size_t count = 0;
            for (auto &o : outs_) {
                if (o.element == n) count = o.count;
            }
            for (size_t i = 0; i < count; i++) {
                for (auto &o : outs_) {
                    if (o.element != n) continue;
                    const size_t sz = type_size(o.type);
                    size_t per = o.keys.size();
                    if (o.listType != Type::INVALID) {
                        per = o.listCount;
                        uint64_t c = o.listCount;
                        if (isBinary) {
                            os.write((const char *)&c, type_size(o.listType));
                        } else {
                            os << c << " ";
                        }
                    }
                    const uint8_t *p = o.data + i * per * sz;
                    if (isBinary) {
                        os.write((const char *)p, per * sz);
                    } else {
                        for (size_t k = 0; k < per; k++) write_ascii(os, o.type, p + k * sz);
                    }
                }
                if (!isBinary) os << "\n";
            }
        }
    }

private:
    struct Req {
        std::string element;
        std::vector<std::string> keys;
        std::shared_ptr<PlyData> data;
    };
    struct Out {
        std::string element;
        std::vector<std::string> keys;
        Type type;
        size_t count;
        const uint8_t *data;
        Type listType;
        size_t listCount;
    };

    void read_scalar(std::istream &is, Type t, uint8_t *dst) {
        if (binary_) {
            is.read((char *)dst, type_size(t));
            return;
        }
        if (t == Type::FLOAT32 || t == Type::FLOAT64) {
            double v = 0;
            is >> v;
            if (t == Type::FLOAT32) {
                float f = (float)v;
                std::memcpy(dst, &f, 4);
            } else {
                std::memcpy(dst, &v, 8);
            }
        } else {
            long long v = 0;
            is >> v;
            std::memcpy(dst, &v, type_size(t));
        }
    }
    uint64_t read_scalar_as_u64(std::istream &is, Type t) {
        uint64_t v = 0;
        read_scalar(is, t, (uint8_t *)&v);
        return v;
    }
    void write_ascii(std::ostream &os, Type t, const uint8_t *p) {
        if (t == Type::FLOAT32) {
            float f;
            std::memcpy(&f, p, 4);
            os << f << " ";
        } else if (t == Type::FLOAT64) {
            double f;
            std::memcpy(&f, p, 8);
            os << f << " ";
        } else {
            int64_t v = 0;
            std::memcpy(&v, p, type_size(t));
            os << v << " ";
        }
    }

    bool binary_ = false;
    std::vector<PlyElement> elements_;
    std::vector<std::string> comments_;
    std::vector<Req> requests_;
    std::vector<Out> outs_;
};

}  // namespace tinyply
#endif
