// J01: computations on separate data do not influence each other: mathematics,
// conversions, colours, text, encodings and helpers on collections.
#include "ctx.hpp"
#include <common_robotics_utilities/base64_helpers.hpp>
#include <common_robotics_utilities/color_builder.hpp>
#include <common_robotics_utilities/conversions.hpp>
#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/print.hpp>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/utility.hpp>
#include <common_robotics_utilities/zlib_helpers.hpp>
#include <array>
#include <cmath>
#include <cstring>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <zlib.h>

using namespace sim;
using namespace common_robotics_utilities;
using namespace ctx;
namespace m = common_robotics_utilities::math;
namespace cv = common_robotics_utilities::conversions;
namespace cb = common_robotics_utilities::color_builder;
namespace ut = common_robotics_utilities::utility;
namespace ser = common_robotics_utilities::serialization;

// zlib itself is not instrumented: the regions it is told to use are checked here.
extern "C" {
int sim_memcmp(const void*, const void*, size_t);
void* sim_memmove(void*, const void*, size_t);
#undef inflate
#undef deflate
int real_inflate(z_streamp s, int f) __asm__("inflate");
int real_deflate(z_streamp s, int f) __asm__("deflate");
static void zlib_regions(z_streamp s)
{
  if (s && s->avail_in) sim_memcmp(s->next_in, s->next_in, s->avail_in);
  if (s && s->avail_out) sim_memmove(s->next_out, s->next_out, s->avail_out);
}
int checked_inflate(z_streamp s, int f) __asm__("sim_inflate");
int checked_deflate(z_streamp s, int f) __asm__("sim_deflate");
int checked_inflate(z_streamp s, int f) { zlib_regions(s); return real_inflate(s, f); }
int checked_deflate(z_streamp s, int f) { zlib_regions(s); return real_deflate(s, f); }
}

namespace
{
using Iso = Eigen::Isometry3d;
using Quat = Eigen::Quaterniond;
using V2 = Eigen::Vector2d; using V3 = Eigen::Vector3d; using V4 = Eigen::Vector4d; using VX = Eigen::VectorXd;
using Twist = Eigen::Matrix<double, 6, 1>;
using Buf = std::vector<uint8_t>;

// What a computation is given.
struct Args
{
  std::vector<double> a, b, w;                 // of one length
  VX xa, xb, xw;                               // of one length
  double s[8] = {}; float f[8] = {}; int64_t n[6] = {}; uint8_t h[4] = {};
  V2 p2, q2, r2; V3 p3, q3, r3; V4 p4, q4;
  Quat qa, qb; Iso ta, tb; Twist u, v;
  std::vector<double> ws;                      // weights of the lists below, or none
  m::VectorVector3d l3; m::VectorVector4d l4; std::vector<VX> lx; m::VectorQuaterniond lq; m::VectorIsometry3d lt;
  std::string text; std::vector<std::string> texts; Buf bytes; std::vector<int32_t> ints, more;
  std::map<std::string, int32_t> dict; std::map<int32_t, std::vector<double>> nested;
};
// What it answers, or that it refused.
struct Out
{
  std::vector<uint64_t> v; bool threw = false;
  void put(uint64_t x) { Quiet q; v.push_back(x); }
  void d(double x) { uint64_t b; if (x != x) b = 0x7ff8000000000000ull; else __builtin_memcpy(&b, &x, 8); put(b); }
  template <typename M> void e(const M& x) { put((uint64_t)x.rows() * 1000 + (uint64_t)x.cols()); for (Eigen::Index j = 0; j < x.cols(); j++) for (Eigen::Index i = 0; i < x.rows(); i++) d(x(i, j)); }
  void q(const Quat& x) { e(x.coeffs()); }
  void t(const Iso& x) { e(x.matrix()); }
  void l(const std::vector<double>& x) { put(x.size()); for (double y : x) d(y); }
  void by(const Buf& x) { put(x.size()); uint64_t hsh = 7; for (uint8_t y : x) hsh = mix(hsh, y); put(hsh); }
  void s(const std::string& x) { put(x.size()); uint64_t hsh = 9; for (char y : x) hsh = mix(hsh, (uint8_t)y); put(hsh); }
  template <typename C> void c(const C& x) { cb::RGBAColor y = cb::ConvertColor<C, cb::RGBAColor>(x); d(y.r); d(y.g); d(y.b); d(y.a); }
};
struct Op { const char* name; bool alloc; void (*run)(const Args&, Out&); };
// alloc: whether memory may run out meanwhile (not where Eigen's decompositions, zlib
// or output streams take it: those do not come out of that intact by themselves)
#define OP(name, alloc, ...) {name, alloc, [](const Args& A, Out& O) { __VA_ARGS__ }}
const Op kOps[] = {
  // vectors of doubles
  OP("vector norms", true, O.d(m::SquaredNorm(A.a)); O.d(m::Norm(A.b)); O.d(m::Sum(A.a)); O.l(m::Abs(A.b));),
  OP("vector scaling", true, O.l(m::Multiply(A.a, A.s[0])); O.l(m::Divide(A.b, A.s[1]));),
  OP("vector offset", true, O.l(m::Add(A.a, A.s[0])); O.l(m::Sub(A.b, A.s[1]));),
  OP("vector products", true, O.l(m::Multiply(A.a, A.b)); O.l(m::Divide(A.a, A.w));),
  OP("vector sums", true, O.l(m::Add(A.a, A.b)); O.l(m::Sub(A.a, A.b));),
  OP("vector mismatch", true, O.l(m::Add(A.a, A.ws));),
  OP("vector interpolation", true, O.l(m::Interpolate(A.a, A.b, A.s[7]));),
  OP("vector distance", true, O.d(m::SquaredDistance(A.a, A.b)); O.d(m::Distance(A.b, A.a));),
  OP("average", true, O.d(m::AverageStdVectorDouble(A.a, A.w));),
  OP("plain average", true, O.d(m::AverageStdVectorDouble(A.b));),
  OP("deviation", true, O.d(m::ComputeStdDevStdVectorDouble(A.a));),
  OP("deviation from mean", true, O.d(m::ComputeStdDevStdVectorDouble(A.a, A.s[0]));),
  OP("average angle", true, O.d(m::AverageContinuousRevolute(A.a, A.w)); O.d(m::AverageContinuousRevolute(A.b));),
  // fixed vectors
  OP("equal 3", true, O.put(m::Equal3d(A.p3, A.q3)); O.put(m::CloseEnough(A.p3, A.q3, A.s[7]));),
  OP("equal 4", true, O.put(m::Equal4d(A.p4, A.q4)); O.put(m::CloseEnough(A.s[0], A.s[1], A.s[7]));),
  OP("interpolate 3", true, O.e(m::Interpolate3d(A.p3, A.q3, A.s[7]));),
  OP("interpolate 4", true, O.e(m::Interpolate4d(A.p4, A.q4, A.s[7]));),
  OP("interpolate X", true, O.e(m::InterpolateXd(A.xa, A.xb, A.s[7]));),
  OP("distances", true, O.d(m::Distance(A.p2, A.q2)); O.d(m::SquaredDistance(A.p3, A.q3)); O.d(m::Distance(A.p3, A.r3)); O.d(m::SquaredDistance(A.p2, A.r2));),
  OP("distances X", true, O.d(m::Distance(A.xa, A.xb)); O.d(m::SquaredDistance(A.xa, A.xw));),
  OP("weighted norms", true, O.d(m::WeightedSquaredNorm(A.xa, A.xw)); O.d(m::WeightedNorm(A.xb, A.xw)); O.d(m::WeightedDotProduct(A.xa, A.xb, A.xw));),
  OP("weighted angles", true, O.d(m::WeightedCosineAngleBetweenVectors(A.xa, A.xb, A.xw)); O.d(m::WeightedAngleBetweenVectors(A.xa, A.xb, A.xw));),
  OP("clamp norm", true, O.e(m::ClampNorm(A.p3, std::fabs(A.s[0]))); O.e(m::ClampNorm(A.xa, 1.0));),
  OP("projection", true, O.e(m::VectorProjection(A.xa, A.xb)); O.e(m::VectorRejection(A.p3, A.q3));),
  OP("orthogonal vector", true, O.e(m::GetArbitraryOrthogonalVector(A.p3)); O.e(m::GetArbitraryOrthogonalVector(A.q4));),
  OP("average 3", true, O.e(m::AverageEigenVector3d(A.l3, A.ws)); O.e(m::AverageEigenVector3d(A.l3));),
  OP("average 4", true, O.e(m::AverageEigenVector4d(A.l4, A.ws)); O.e(m::AverageEigenVector4d(A.l4));),
  OP("average X", true, O.e(m::AverageEigenVectorXd(A.lx, A.ws)); O.e(m::AverageEigenVectorXd(A.lx));),
  OP("average quaternion", true, O.q(m::AverageEigenQuaterniond(A.lq, A.ws)); O.q(m::AverageEigenQuaterniond(A.lq));),
  OP("average transform", true, O.t(m::AverageEigenIsometry3d(A.lt, A.ws)); O.t(m::AverageEigenIsometry3d(A.lt));),
  OP("linear interpolation", true, O.d(m::LinearInterpolate<double>(A.s[0], A.s[0] + 1 + A.s[7], A.s[2], A.s[3], A.s[0] + A.s[7]));),
  OP("bilinear interpolation", true, O.d(m::BilinearInterpolate<double>(A.p2, A.p2 + V2(1, 2), A.s[0], A.s[1], A.s[2], A.s[3], A.p2 + V2(A.s[7], A.s[7])));),
  OP("trilinear interpolation", true, O.d(m::TrilinearInterpolate<double>(A.p3, A.p3 + V3(1, 2, 3), A.s[0], A.s[1], A.s[2], A.s[3], A.s[4], A.s[5], A.s[0], A.s[1], A.p3 + V3(A.s[7], 1, A.s[7])));),
  OP("plane", true, const m::Hyperplane p(A.p3, V3(A.q3 + V3(0, 0, 20))); O.d(p.GetNormedDotProduct(A.r3)); O.d(p.GetDistanceToPlane(A.r3)); O.e(p.ProjectPointOntoPlane(A.r3)); O.e(p.ProjectVectorOntoPlane(A.q3));),
  OP("plane extras", true, const m::Hyperplane p(A.p3, V3(A.q3 + V3(0, 0, 20))); O.d(p.GetSquaredDistanceToPlane(A.r3)); O.d(p.GetRawDotProduct(A.r3)); O.e(p.RejectVectorOntoPlane(A.r3)); O.put((uint64_t)p.GetDimensionality());),
  OP("plane fit", false, std::vector<VX> pts; for (auto& x : A.l3) pts.push_back(x); pts.push_back(A.p3); pts.push_back(A.q3); pts.push_back(A.r3); const m::Hyperplane p = m::FitPlaneToPoints(pts); O.e(p.GetOrigin()); O.e(p.GetNormal());),
  // angles
  OP("angle bounds", true, O.d(m::EnforceContinuousRevoluteBounds(A.s[0])); O.d(m::AddContinuousRevoluteValues(A.s[0], A.s[1])); O.d(m::GetContinuousRevoluteRange(A.s[2], A.s[3]));),
  OP("angle distance", true, O.d(m::ContinuousRevoluteSignedDistance(A.s[0], A.s[1])); O.d(m::ContinuousRevoluteDistance(A.s[2], A.s[3]));),
  OP("angle interpolation", true, O.d(m::InterpolateContinuousRevolute(A.s[0], A.s[1], A.s[7])); O.d(m::Interpolate(A.s[0], A.s[1], A.s[7]));),
  OP("angle ranges", true, O.put(m::CheckInContinuousRevoluteRange(A.s[0], A.s[1], A.s[2])); O.put(m::CheckInContinuousRevoluteBounds(A.s[0], A.s[1], A.s[2]));),
  // rotations and transforms
  OP("interpolate quaternion", true, O.q(m::Interpolate(A.qa, A.qb, A.s[7])); O.d(m::Distance(A.qa, A.qb));),
  OP("interpolate transform", true, O.t(m::Interpolate(A.ta, A.tb, A.s[7])); O.d(m::Distance(A.ta, A.tb, A.s[7]));),
  OP("skew", true, O.e(m::Skew(A.p3)); O.e(m::Unskew(m::Skew(A.q3)));),
  OP("twist hat", true, O.e(m::TwistHat(A.u)); O.e(m::TwistUnhat(m::TwistHat(A.v)));),
  OP("adjoint", true, O.e(m::AdjointFromTransform(A.ta)); O.e(m::TransformTwist(A.tb, A.u));),
  OP("twist between", true, O.e(m::TwistBetweenTransforms(A.ta, A.tb));),
  OP("exponential", true, O.t(m::ExpTwist(A.u, A.s[7])); O.e(m::ExpMatrixExact(m::Skew(A.p3.normalized()), A.s[7]));),
  OP("rpy to quaternion", true, O.q(cv::QuaternionFromRPY(A.s[0], A.s[1], A.s[2])); O.q(cv::QuaternionFromUrdfRPY(A.s[0], A.s[1], A.s[2]));),
  OP("euler angles", true, O.e(cv::EulerAnglesFromQuaternion(A.qa)); O.e(cv::EulerAnglesFromIsometry3d(A.ta)); O.e(cv::EulerAnglesFromRotationMatrix(A.tb.rotation()));),
  OP("rpy to transform", true, O.t(cv::TransformFromXYZRPY(A.s[0], A.s[1], A.s[2], A.s[3], A.s[4], A.s[5])); O.t(cv::TransformFromRPY(A.p3, A.q3)); O.t(cv::TransformFromRPY(VX(A.u)));),
  OP("urdf to transform", true, O.t(cv::TransformFromUrdfXYZRPY(A.s[0], A.s[1], A.s[2], A.s[3], A.s[4], A.s[5])); O.t(cv::TransformFromUrdfRPY(A.p3, A.q3)); O.t(cv::TransformFromUrdfRPY(VX(A.v)));),
  OP("transform to rpy", true, O.e(cv::TransformToRPY(A.ta)); O.e(cv::TransformToRPY(A.tb));),
  OP("vector conversions", true, O.e(cv::StdVectorDoubleToEigenVectorXd(A.a)); O.l(cv::EigenVectorXdToStdVectorDouble(A.xb)); O.l(cv::EigenVector3dToStdVectorDouble(A.p3));),
  OP("short vector conversions", true, O.l(cv::EigenQuaterniondToStdVectorDouble(A.qa)); O.q(cv::StdVectorDoubleToEigenQuaterniond(cv::EigenQuaterniondToStdVectorDouble(A.qb))); O.e(cv::StdVectorDoubleToEigenVector3d(cv::EigenVector3dToStdVectorDouble(A.q3)));),
  OP("vector conversion of any length", true, O.e(cv::StdVectorDoubleToEigenVector3d(A.a));),
  OP("transform of any length", true, O.t(cv::TransformFromRPY(A.xa));),
  // colours
  OP("colours", true, O.c(cb::MakeFromFloatColors<cb::RGBAColor>(A.f[0], A.f[1], A.f[2], A.f[3])); O.c(cb::MakeFromHexColors<cb::RGBAColor>(A.h[0], A.h[1], A.h[2], A.h[3])); O.c(cb::MakeFromMixedColors<cb::RGBAColor>(A.h[0], A.h[1], A.h[2], A.f[3]));),
  OP("colour channels", true, cb::RGBAColor c(A.f[0], A.f[1], A.f[2], A.f[3]); O.put(c.GetRHex()); O.put(c.GetGHex()); O.put(c.GetBHex()); O.put(c.GetAHex()); c.SetRHex(A.h[0]); c.SetG(A.f[4]); c.SetBHex(A.h[2]); c.SetA(A.f[5]); O.c(c); O.d(cb::ColorChannelFromHex(A.h[3]));),
  OP("hot to cold", true, O.c(cb::InterpolateHotToCold<cb::RGBAColor>(A.s[0], A.s[1] < A.s[2] ? A.s[1] : A.s[2], (A.s[1] < A.s[2] ? A.s[2] : A.s[1]) + 0.5));),
  OP("unique colour", true, O.c(cb::LookupUniqueColor<cb::RGBAColor>((uint32_t)(A.n[0] % 24), A.f[0])); O.put(cb::ColorChannelToHex(A.f[1]));),
  OP("equal colours", true, O.put(cb::ColorsEqual<cb::RGBAColor, cb::RGBAColor>(cb::MakeFromHexColors<cb::RGBAColor>(A.h[0], A.h[1], A.h[2]), cb::MakeFromHexColors<cb::RGBAColor>(A.h[1], A.h[1], A.h[2]), A.f[4]));),
  // collections and numbers
  OP("subset", true, O.put(ut::IsSubset<int32_t>(A.ints, A.more)); O.put(ut::IsSubset<int32_t>(A.more, A.ints));),
  OP("equal collections", true, O.put(ut::CollectionsEqual<int32_t>(A.ints, A.more)); O.put(ut::CollectionsEqual<int32_t>(A.ints, A.ints));),
  OP("substring", true, O.put(ut::CheckAllStringsForSubstring(A.texts, A.text));),
  OP("look up", true, O.put((uint64_t)ut::RetrieveOrDefault<std::string, int32_t>(A.dict, A.text, (int32_t)A.n[0]));),
  OP("keys", true, const auto k = ut::GetKeysFromMapLike<std::string, int32_t>(A.dict); for (auto& x : k) O.s(x); const std::set<int32_t> st(A.ints.begin(), A.ints.end()); for (auto x : ut::GetKeysFromSetLike<int32_t>(st)) O.put((uint64_t)x);),
  OP("keys and values", true, const auto k = ut::GetKeysAndValues<std::string, int32_t>(A.dict); const auto d = ut::MakeFromKeysAndValues<std::string, int32_t, std::map<std::string, int32_t>, std::vector<std::pair<std::string, int32_t>>>(k); for (auto& x : d) { O.s(x.first); O.put((uint64_t)x.second); }),
  OP("make map", true, const auto d = ut::MakeFromKeysAndValues<int32_t, int32_t>(A.ints, A.more); for (auto& x : d) { O.put((uint64_t)x.first); O.put((uint64_t)x.second); }),
  OP("clamp", true, O.d(ut::ClampValue<double>(A.s[0], A.s[1], A.s[2])); O.put((uint64_t)ut::ClampValue<int64_t>(A.n[0], -3, 40));),
  OP("spread", true, O.d(ut::SpreadValue<double>(A.s[0], A.s[1], A.s[2], A.s[3]));),
  OP("spread and log", true, std::string log; O.d(ut::SpreadValueAndLog<double>(A.s[7], -2.0, 0.25, 2.0, [&](const std::string& t) { log = t; })); O.s(log);),
  OP("spread in order", true, const double x = std::fabs(A.s[1]); O.d(ut::SpreadValue<double>(A.s[0], -x, 0.25, x + 1));),
  OP("clamp and log", true, std::string log; O.d(ut::ClampValueAndLog<double>(A.s[0], -1.0, 1.0, [&](const std::string& t) { log = t; })); O.s(log);),
  OP("bits", true, O.put(ut::SetBit<uint8_t>(A.h[0], (uint32_t)(A.n[0] & 7), A.n[1] & 1)); O.put(ut::GetBit<uint8_t>(A.h[1], (uint32_t)(A.n[1] & 7))); O.put(ut::SetBit<uint64_t>((uint64_t)A.n[2], (uint32_t)(A.n[0] & 63), A.n[1] & 1)); O.put(ut::GetBit<uint32_t>((uint32_t)A.n[3], (uint32_t)(A.n[0] & 31)));),
  OP("hash", true, std::size_t h = 0; ut::hash_combine(h, A.s[0], A.text, A.n[0]); O.put(h);),
  // encodings
  OP("base64", true, const std::string s = base64_helpers::Encode(A.bytes); O.s(s); O.by(base64_helpers::Decode(s));),
  OP("compression", false, const Buf z = zlib_helpers::CompressBytes(A.bytes); O.by(z); O.by(zlib_helpers::DecompressBytes(z));),
  OP("serialise text", true, Buf b; O.put(ser::SerializeString<char>(A.text, b)); O.by(b); O.s(ser::DeserializeString<char>(b, 0).Value());),
  OP("serialise vectors", true, Buf b; O.put(ser::SerializeVectorXd(A.xa, b)); O.put(ser::SerializeVector3d(A.p3, b)); O.by(b); O.e(ser::DeserializeVectorXd(b, 0).Value());),
  OP("serialise transform", true, Buf b; O.put(ser::SerializeIsometry3d(A.ta, b)); O.put(ser::SerializeQuaterniond(A.qb, b)); O.by(b); O.t(ser::DeserializeIsometry3d(b, 0).Value());),
  OP("serialise list", true, Buf b; O.put((ser::SerializeVectorLike<double>(A.a, b, ser::SerializeMemcpyable<double>))); O.by(b); O.l(ser::DeserializeVectorLike<double>(b, 0, ser::DeserializeMemcpyable<double>).Value());),
  OP("serialise for a network", true, Buf b; O.put(ser::SerializeNetworkMemcpyable<uint64_t>((uint64_t)A.n[0], b)); O.put(ser::SerializeNetworkMemcpyable<uint16_t>((uint16_t)A.n[1], b)); O.put((ser::SerializeNetworkMemcpyableVectorLike<uint8_t>(A.bytes, b))); O.by(b); O.put(ser::DeserializeNetworkMemcpyable<uint64_t>(b, 0).Value()); O.put(ser::DeserializeNetworkMemcpyable<uint16_t>(b, 8).Value()); const auto r = ser::DeserializeNetworkMemcpyableVectorLike<uint8_t>(b, 10); O.put(r.BytesRead()); O.by(r.Value()); O.put(ser::HostToNetwork32((uint32_t)A.n[2])); O.put(ser::NetworkToHost64((uint64_t)A.n[3]));),
  OP("serialise more vectors", true, Buf b; O.put(ser::SerializeVector2d(A.p2, b)); O.put(ser::SerializeVector4d(A.p4, b)); O.put(ser::SerializeMatrixXd(Eigen::MatrixXd(A.tb.matrix()), b)); O.by(b); O.e(ser::DeserializeVector2d(b, 0).Value()); O.e(ser::DeserializeVector4d(b, 16).Value()); O.e(ser::DeserializeMatrixXd(b, 48).Value());),
  OP("serialise numbers", true, Buf b; O.put((ser::SerializeMemcpyableVectorLike<int32_t>(A.ints, b))); O.by(b); const auto r = ser::DeserializeMemcpyableVectorLike<int32_t>(b, 0); O.put(r.BytesRead()); for (auto x : r.Value()) O.put((uint64_t)x);),
  OP("serialise map", true, Buf b; O.put((ser::SerializeMapLike<std::string, int32_t>(A.dict, b, ser::SerializeString<char>, ser::SerializeMemcpyable<int32_t>))); O.by(b);),
  // text
  OP("print numbers", false, O.s(print::Print(A.s[0])); O.s(print::Print((int32_t)A.n[0])); O.s(print::Print((A.n[1] & 1) == 0)); O.s(print::Print(A.h[0]));),
  OP("print vectors", false, O.s(print::Print(A.p2)); O.s(print::Print(A.p3)); O.s(print::Print(A.p4)); O.s(print::Print(A.xa));),
  OP("print transforms", false, O.s(print::Print(A.qa)); O.s(print::Print(A.ta));),
  OP("print vector", false, O.s(print::Print(A.a, true, " | ")); O.s(print::Print(A.texts));),
  OP("print map", false, O.s(print::Print(A.dict, true)); O.s(print::Print(A.nested));),
  OP("print lists", false, O.s(print::Print(std::forward_list<int32_t>(A.ints.begin(), A.ints.end()))); O.s(print::Print(std::forward_list<int32_t>(A.more.begin(), A.more.end()), true)); O.s(print::Print(std::list<int32_t>(A.ints.begin(), A.ints.end()))); O.s(print::Print(std::deque<int32_t>(A.more.begin(), A.more.end()), true));),
  OP("print sets", false, O.s(print::Print(std::set<int32_t>(A.ints.begin(), A.ints.end()))); O.s(print::Print(std::multiset<int32_t>(A.more.begin(), A.more.end()), true)); O.s(print::Print(std::pair<int32_t, double>((int32_t)A.n[0], A.s[0]))); O.s(print::Print(std::array<double, 2>{A.s[0], A.s[1]}));),
  OP("print unordered", false, std::unordered_map<int32_t, double> um; std::unordered_set<int32_t> us; std::multimap<int32_t, std::string> mm; std::unordered_multimap<int32_t, int32_t> umm; std::unordered_multiset<int32_t> ums; for (auto x : A.ints) { um[x] = x; us.insert(x); mm.insert({x, "v"}); umm.insert({x, x}); ums.insert(x); } O.s(print::Print(um, true)); O.s(print::Print(us)); O.s(print::Print(mm)); O.s(print::Print(umm)); O.s(print::Print(ums, true));),
  OP("print lists of geometry", false, O.s(print::Print(A.l3, true)); O.s(print::Print(A.lq)); O.s(print::Print(A.lt)); O.s(print::Print(Eigen::MatrixXd(A.ta.matrix())));),
};
constexpr size_t kNumOps = sizeof kOps / sizeof kOps[0];

double draw_num()
{
  static const double special[] = {0, 1, -1, 3.14159265358979323846, -3.14159265358979323846, 6.28318530717958647692, 0.5, 1e-9, 100, -0.0};
  return chance(1, 4) ? special[draw(10)] : (double)range(-4000, 4000) / 256.0;
}
double draw_weight(bool zero) { return zero && chance(1, 6) ? 0 : 0.0625 * (double)(1 + draw(64)); }
Quat draw_quat() { Quat q(draw_num(), draw_num(), draw_num(), draw_num()); if (!(q.norm() > 1e-6)) q = Quat(1, 0, 0, 0); q.normalize(); return q; }
Iso draw_iso() { Iso t = Iso::Identity(); t.translate(V3(draw_num(), draw_num(), draw_num())); t.rotate(draw_quat()); return t; }
V3 draw_v3() { return V3(draw_num(), draw_num(), draw_num()); }
VX draw_vx(size_t n, bool weights) { VX v((Eigen::Index)n); for (size_t i = 0; i < n; i++) v((Eigen::Index)i) = weights ? draw_weight(false) : draw_num(); return v; }
std::string draw_text() { std::string s; const size_t n = draw(chance(1, 3) ? 40 : 4); for (size_t i = 0; i < n; i++) s += (char)('a' + draw(3)); return s; }
void draw_lists(Args& A, size_t n)
{
  A.l3.clear(); A.l4.clear(); A.lx.clear(); A.lq.clear(); A.lt.clear(); A.ws.clear();
  const Eigen::Index dim = 1 + (Eigen::Index)draw(5);
  for (size_t i = 0; i < n; i++)
  {
    A.l3.push_back(draw_v3()); A.l4.push_back(V4(draw_num(), draw_num(), draw_num(), draw_num())); A.lx.push_back(draw_vx((size_t)dim, false));
    A.lq.push_back(draw_quat()); A.lt.push_back(draw_iso());
  }
  if (chance(2, 3)) for (size_t i = 0; i < n; i++) A.ws.push_back(draw_weight(true));
  if (chance(1, 12)) A.ws.push_back(1);
}
void draw_doubles(Args& A, size_t n)
{
  A.a.clear(); A.b.clear(); A.w.clear();
  for (size_t i = 0; i < n; i++) { A.a.push_back(draw_num()); A.b.push_back(draw_num()); A.w.push_back(draw_weight(true)); }
  A.xa = draw_vx(n, false); A.xb = draw_vx(n, false); A.xw = draw_vx(n, true);
}
void draw_small(Args& A)
{
  for (double& x : A.s) x = draw_num();
  A.s[7] = (double)draw(65) / 64;
  for (float& x : A.f) x = (float)range(-64, 320) / 256.0f;
  for (int64_t& x : A.n) x = chance(1, 3) ? (int64_t)draw(1ull << 62) : (int64_t)draw(60);
  for (uint8_t& x : A.h) x = (uint8_t)draw(256);
}
void draw_geometry(Args& A)
{
  A.p2 = V2(draw_num(), draw_num()); A.q2 = V2(draw_num(), draw_num()); A.r2 = V2(draw_num(), draw_num());
  A.p3 = draw_v3(); A.q3 = draw_v3(); A.r3 = draw_v3();
  A.p4 = V4(draw_num(), draw_num(), draw_num(), draw_num()); A.q4 = V4(draw_num(), draw_num(), draw_num(), draw_num());
  A.qa = draw_quat(); A.qb = draw_quat(); A.ta = draw_iso(); A.tb = draw_iso();
  for (int i = 0; i < 6; i++) { A.u(i) = draw_num(); A.v(i) = draw_num(); }
}
void draw_stuff(Args& A)
{
  A.text = draw_text(); A.texts.clear(); A.bytes.clear(); A.ints.clear(); A.more.clear(); A.dict.clear(); A.nested.clear();
  for (size_t i = draw(4); i > 0; i--) A.texts.push_back(draw_text());
  for (size_t i = draw(chance(1, 4) ? 300 : 12); i > 0; i--) A.bytes.push_back((uint8_t)draw(chance(1, 2) ? 256 : 3));
  for (size_t i = draw(6); i > 0; i--) { A.ints.push_back((int32_t)draw(5)); A.more.push_back((int32_t)draw(5)); }
  if (chance(1, 3)) { A.more = A.ints; std::reverse(A.more.begin(), A.more.end()); }
  for (size_t i = draw(5); i > 0; i--) { A.dict[draw_text()] = (int32_t)draw(9); A.nested[(int32_t)draw(9)] = A.a; }
}
Args draw_args()
{
  Args A;
  draw_doubles(A, chance(1, 6) ? draw(40) : draw(7)); draw_lists(A, chance(1, 10) ? draw(20) : 1 + draw(5)); draw_small(A); draw_geometry(A); draw_stuff(A);
  return A;
}
// Nearly the same arguments: a computation must not take them for the same.
Args alter(const Args& from)
{
  Args A = from;
  for (int k = 1 + (int)draw(2); k > 0; k--)
    switch (draw(12))
    {
      case 0: if (!A.a.empty()) { A.a.back() = draw_num(); A.b.front() = draw_num(); A.xa(A.xa.size() - 1) = draw_num(); A.xb(0) = draw_num(); } break;
      case 1: if (!A.w.empty()) { A.w[draw(A.w.size())] = draw_weight(true); A.xw((Eigen::Index)draw((uint64_t)A.xw.size())) = draw_weight(false); } break;
      case 2: std::reverse(A.a.begin(), A.a.end()); std::reverse(A.l3.begin(), A.l3.end()); std::reverse(A.lq.begin(), A.lq.end()); std::reverse(A.bytes.begin(), A.bytes.end()); std::reverse(A.text.begin(), A.text.end()); break;
      case 3: if (!A.ws.empty()) A.ws[draw(A.ws.size())] = draw_weight(true); break;
      case 4: A.s[draw(7)] += 1e-9; A.p3(0) += 1e-9; A.q4(3) -= 1e-9; A.u(5) += 1e-9; A.f[draw(8)] += 0.002f; break;
      case 5: A.s[7] = (double)draw(65) / 64; break;
      case 6: std::swap(A.p3, A.q3); std::swap(A.qa, A.qb); std::swap(A.ta, A.tb); std::swap(A.p2, A.q2); std::swap(A.u, A.v); std::swap(A.s[0], A.s[1]); break;
      case 7: A.ta.translation() = draw_v3(); A.tb.translation()(0) += 0.5; if (!A.l3.empty()) { A.l3.back()(2) += 1; A.lx.back()(0) += 1; A.lt.back().translation()(1) += 1; } break;
      case 8: A.qb = Quat(-A.qb.w(), -A.qb.x(), -A.qb.y(), -A.qb.z()); if (!A.lq.empty()) { A.lq.back() = draw_quat(); A.l4.back()(3) += 1; } break;
      case 9: if (!A.bytes.empty()) A.bytes.back() ^= 1; if (!A.text.empty()) A.text.back() = 'z'; if (!A.ints.empty()) A.ints.back() = (int32_t)draw(5); break;
      case 10: draw_small(A); break;
      default: draw_stuff(A);
    }
  return A;
}
// The whole of a set of arguments, to see whether it was left alone.
Out digest(const Args& A)
{
  Out O; O.l(A.a); O.l(A.b); O.l(A.w); O.l(A.ws); O.e(A.xa); O.e(A.xb); O.e(A.xw);
  for (double x : A.s) O.d(x); for (float x : A.f) O.d(x); for (int64_t x : A.n) O.put((uint64_t)x); for (uint8_t x : A.h) O.put(x);
  O.e(A.p2); O.e(A.q2); O.e(A.r2); O.e(A.p3); O.e(A.q3); O.e(A.r3); O.e(A.p4); O.e(A.q4); O.q(A.qa); O.q(A.qb); O.t(A.ta); O.t(A.tb); O.e(A.u); O.e(A.v);
  for (auto& x : A.l3) O.e(x); for (auto& x : A.l4) O.e(x); for (auto& x : A.lx) O.e(x); for (auto& x : A.lq) O.q(x); for (auto& x : A.lt) O.t(x);
  O.s(A.text); for (auto& x : A.texts) O.s(x); O.by(A.bytes); for (auto x : A.ints) O.put((uint64_t)x); for (auto x : A.more) O.put((uint64_t)x);
  for (auto& x : A.dict) { O.s(x.first); O.put((uint64_t)x.second); } for (auto& x : A.nested) { O.put((uint64_t)x.first); O.l(x.second); }
  return O;
}
struct Job { size_t op, args; };
// One computation; false: memory ran out.
bool perform(const Op& op, const Args& A, uint32_t faults, Out& O)
{
  End end; EndCheck ec; std::string msg; sim::op();
  { FaultScope fs(faults); end = attempt([&]() { op.run(A, O); }, &msg); }
  if (end == STDEXC) { Quiet q; O.v.clear(); O.threw = true; return true; }
  if (end == RETURNED) return true;
  ec.check(end, op.name, msg);
  return false;
}
// The answer in a copy of the process that has computed nothing yet.
bool fresh(const Op& op, const Args& A, Out& O)
{
  constexpr size_t kMax = 4000;
  struct Reply { uint64_t done, threw, n, v[kMax]; };
  Quiet q;
  Reply* r = (Reply*)mmap(nullptr, sizeof(Reply), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (r == MAP_FAILED) return false;
  const pid_t c = (pid_t)::syscall(SYS_fork);
  if (c == 0)
  {
    Out a;
    try { op.run(A, a); } catch (const std::exception&) { a.v.clear(); a.threw = true; }
    r->threw = a.threw; r->n = a.v.size(); for (size_t i = 0; i < a.v.size() && i < kMax; i++) r->v[i] = a.v[i];
    r->done = 1; ::syscall(SYS_exit_group, 0);
  }
  if (c < 0) { munmap(r, sizeof(Reply)); return false; }
  int st = 0; ::syscall(SYS_wait4, c, &st, 0, nullptr);
  if (r->done != 1) fail("different-answer", "%s did not end where nothing had been computed before", op.name);
  O.threw = r->threw != 0; for (size_t i = 0; i < r->n && i < kMax; i++) O.v.push_back(r->v[i]);
  munmap(r, sizeof(Reply));
  return true;
}
void compare(const Op& op, const Out& want, const Out& got, const char* when)
{
  if (want.threw != got.threw) fail("different-answer", "%s %s %s", op.name, want.threw ? "was refused before but not" : "worked before but was refused", when);
  if (want.v != got.v)
  {
    size_t i = 0; while (i < want.v.size() && i < got.v.size() && want.v[i] == got.v[i]) i++;
    fail("different-answer", "%s: another answer %s than before (value %zu of %zu)", op.name, when, i, want.v.size());
  }
}
void run_j01()
{
  std::vector<Args> args; args.push_back(draw_args());
  const size_t sets = 1 + draw(4);
  while (args.size() <= sets) args.push_back(chance(2, 3) ? alter(args[draw(args.size())]) : draw_args());
  std::vector<size_t> ops; for (size_t k = 1 + draw(6); k > 0; k--) ops.push_back(draw(kNumOps));
  std::vector<Job> jobs;
  for (size_t o : ops) for (size_t a = 0; a < args.size(); a++) if (chance(4, 5)) jobs.push_back({o, a});
  for (size_t i = jobs.size(); i > 1; i--) std::swap(jobs[i - 1], jobs[draw(i)]);
  std::vector<Out> before; for (auto& a : args) before.push_back(digest(a));
  // some of them in a process that computes nothing else
  std::vector<Out> alone(jobs.size()); std::vector<char> known(jobs.size(), 0);
  if (chance(1, 3)) for (size_t k = 0; k < 5 && k < jobs.size(); k++) { const size_t i = draw(jobs.size()); if (known[i]) continue; if (!fresh(kOps[jobs[i].op], args[jobs[i].args], alone[i])) break; known[i] = 1; probe("computed in a fresh process"); }
  std::vector<Out> want(jobs.size());
  for (size_t i = 0; i < jobs.size(); i++)
  {
    Out& O = want[i]; perform(kOps[jobs[i].op], args[jobs[i].args], 0, O);
    if (O.threw) probe("request refused");
    if (known[i]) compare(kOps[jobs[i].op], alone[i], O, "after other computations (alone, in a fresh process)");
  }
  // again, in another order, now and then with too little memory, now and then on
  // arguments that stand where others stood before
  const bool tight = chance(1, 2), reuse = chance(1, 2);
  std::vector<size_t> order; for (size_t i = 0; i < jobs.size(); i++) for (int k = tight ? 3 : 1; k > 0; k--) order.push_back(i);
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[draw(i)]);
  Args place = args[0];
  for (size_t i : order)
  {
    const Op& op = kOps[jobs[i].op]; Out O;
    if (reuse) { Quiet q; place = args[jobs[i].args]; }
    if (!perform(op, reuse ? place : args[jobs[i].args], tight && op.alloc ? bit(F_ALLOC) : 0, O)) { probe("call ended by bad_alloc"); continue; }
    compare(op, want[i], O, reuse ? "on arguments that replaced others" : "in another order");
  }
  if (reuse) probe("arguments in the place of others");
  // and by several threads at once, which share the arguments or own theirs
  const int callers = 2 + (int)draw(2);
  const bool shared = chance(1, 2);
  std::vector<std::vector<size_t>> todo((size_t)callers);
  for (auto& t : todo) for (size_t k = 0; k < jobs.size() && k < 12; k++) t.push_back(draw(jobs.size()));
  const auto work = [&](int c)
  {
    std::vector<Args> own; { Quiet q; if (!shared) own = args; }
    const std::vector<Args>& use = shared ? args : own;
    for (size_t i : todo[(size_t)c])
    {
      const Op& op = kOps[jobs[i].op]; Out O;
      perform(op, use[jobs[i].args], kSchedAll, O);
      compare(op, want[i], O, "while other threads compute");
    }
    Quiet q; own.clear(); own.shrink_to_fit();
  };
  const Kind kind = chance(1, 2) ? TWO_CALLERS : chance(1, 2) ? IN_OMP_LOOP : IN_ASYNC_LOOP;
  { FaultScope fs(kSched); call(kind, callers, work); }
  probe(shared ? "shared arguments" : "own arguments");
  for (size_t a = 0; a < args.size(); a++) if (digest(args[a]).v != before[a].v) fail("argument-changed", "the arguments are not what they were");
  for (size_t o : ops) state(o);
}
}  // namespace

namespace sim
{
const Property kProperties[] = {
  {"J01", run_j01, 40000000, kSchedAll | bit(F_ALLOC), true},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
