// A small interpreter for the subset of SkSL that mesh shaders use. Stands in for Skia's shader compiler
// and for the GPU: the shader sources that run are the real ones.
#ifndef DST_SKIA_SKSL_H_
#define DST_SKIA_SKSL_H_
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace sksl {

struct Type {
  char base = 'v';  // v void, b bool, i int, f float, h half, m matrix, s struct
  int n = 1;        // components, or the struct's index
  bool operator==(const Type& o) const { return base == o.base && n == o.n; }
};
struct Value {
  Type t;
  float f[16] = {};
  std::vector<Value> fields;  // of a struct
};
struct Field { std::string name; Type type; };
struct StructDef { std::string name; std::vector<Field> fields; };

struct Impl;
class Program {
 public:
  Program();
  ~Program();
  // Returns an error message, empty when the program compiled. `structs` are predeclared (Attributes, Varyings).
  std::string Compile(const std::string& source, std::vector<StructDef> structs);
  const std::vector<Field>& Uniforms() const;
  void SetUniform(size_t i, const float* v);
  // Runs main(); `args` are the arguments in order, out parameters are written back. Throws std::runtime_error.
  Value RunMain(std::vector<Value>& args);
  int StructIndex(const std::string& name) const;
  static int Components(Type t) { return t.base == 'm' ? t.n * t.n : t.n; }

 private:
  std::unique_ptr<Impl> im_;
};

}  // namespace sksl
#endif
