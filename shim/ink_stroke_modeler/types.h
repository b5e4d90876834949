// Verification stand-in for google/ink-stroke-modeler (not available offline).
#ifndef SHIM_INK_STROKE_MODELER_TYPES_H_
#define SHIM_INK_STROKE_MODELER_TYPES_H_
#include <cmath>
#include <ostream>
namespace ink::stroke_model {
struct Vec2 { float x = 0; float y = 0; float Magnitude() const { return std::hypot(x, y); } };
inline bool operator==(Vec2 a, Vec2 b) { return a.x == b.x && a.y == b.y; }
inline bool operator!=(Vec2 a, Vec2 b) { return !(a == b); }
inline Vec2 operator+(Vec2 a, Vec2 b) { return {a.x + b.x, a.y + b.y}; }
inline Vec2 operator-(Vec2 a, Vec2 b) { return {a.x - b.x, a.y - b.y}; }
inline Vec2 operator*(Vec2 a, float s) { return {a.x * s, a.y * s}; }
inline Vec2 operator*(float s, Vec2 a) { return a * s; }
inline Vec2 operator/(Vec2 a, float s) { return {a.x / s, a.y / s}; }
class Duration {
 public:
  Duration() = default;
  explicit constexpr Duration(double v) : v_(v) {}
  constexpr double Value() const { return v_; }
 private:
  double v_ = 0;
};
class Time {
 public:
  Time() = default;
  explicit constexpr Time(double v) : v_(v) {}
  constexpr double Value() const { return v_; }
 private:
  double v_ = 0;
};
inline bool operator==(Duration a, Duration b) { return a.Value() == b.Value(); }
inline bool operator<(Duration a, Duration b) { return a.Value() < b.Value(); }
inline bool operator==(Time a, Time b) { return a.Value() == b.Value(); }
inline bool operator<(Time a, Time b) { return a.Value() < b.Value(); }
inline Duration operator-(Time a, Time b) { return Duration(a.Value() - b.Value()); }
inline Time operator+(Time a, Duration b) { return Time(a.Value() + b.Value()); }
struct Input {
  enum class EventType { kDown, kMove, kUp };
  EventType event_type = EventType::kDown;
  Vec2 position;
  Time time;
  float pressure = -1;
  float tilt = -1;
  float orientation = -1;
};
inline bool operator==(const Input& a, const Input& b) {
  return a.event_type == b.event_type && a.position == b.position && a.time == b.time &&
         a.pressure == b.pressure && a.tilt == b.tilt && a.orientation == b.orientation;
}
struct Result {
  Vec2 position;
  Vec2 velocity;
  Vec2 acceleration;
  Time time;
  float pressure = -1;
  float tilt = -1;
  float orientation = -1;
};
}  // namespace ink::stroke_model
#endif
