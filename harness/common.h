// Shared by the scenarios: numeric comparison, exact (bitwise) digests, and a
// small dense reference implementation of the Gaussian-process posterior that
// shares no code with limbo::model.
#pragma once
#include <Eigen/Cholesky>
#include <Eigen/Core>
#include <Eigen/LU>
#include <cmath>
#include <cstring>
#include <fstream>
#include <mutex>
#include <sim.h>
#include <string>
#include <vector>

using Eigen::MatrixXd;
using Eigen::VectorXd;
using VVec = std::vector<VectorXd>;

namespace hz {
    inline bool close(double a, double b, double tol, double scale = 1)
    {
        if (std::isnan(a) || std::isnan(b))
            return std::isnan(a) && std::isnan(b);
        if (a == b)
            return true;
        return std::fabs(a - b) <= tol * (scale + std::max(std::fabs(a), std::fabs(b)));
    }
    inline bool close(const VectorXd& a, const VectorXd& b, double tol, double scale = 1)
    {
        if (a.size() != b.size())
            return false;
        for (int i = 0; i < a.size(); i++)
            if (!close(a[i], b[i], tol, scale))
                return false;
        return true;
    }
    inline bool same_bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
    template <typename A, typename B>
    inline bool same_bits(const A& a, const B& b)
    {
        if (a.rows() != b.rows() || a.cols() != b.cols())
            return false;
        for (int j = 0; j < a.cols(); j++)
            for (int i = 0; i < a.rows(); i++)
                if (!same_bits((double)a(i, j), (double)b(i, j)))
                    return false;
        return true;
    }
    inline bool same_bits(const VVec& a, const VVec& b)
    {
        if (a.size() != b.size())
            return false;
        for (size_t i = 0; i < a.size(); i++)
            if (!same_bits(a[i], b[i]))
                return false;
        return true;
    }
    inline std::string str(const VectorXd& v)
    {
        std::string s = "(";
        char b[40];
        for (int i = 0; i < v.size(); i++) {
            snprintf(b, sizeof b, "%s%.10g", i ? "," : "", v[i]);
            s += b;
        }
        return s + ")";
    }
    inline VectorXd vec(double a)
    {
        VectorXd v(1);
        v << a;
        return v;
    }
    // points and values are drawn on a coarse grid so that a tape stays readable
    inline double coord() { return sim::draw(1025) / 1024.0; }
    inline VectorXd point(int d)
    {
        VectorXd v(d);
        for (int i = 0; i < d; i++)
            v[i] = coord();
        return v;
    }
    inline double value() { return ((int)sim::draw(2001) - 1000) / 250.0; }
    inline VectorXd obs(int d)
    {
        VectorXd v(d);
        for (int i = 0; i < d; i++)
            v[i] = value();
        return v;
    }
    // pairwise distinct points (so that kernels stay well conditioned)
    inline VectorXd fresh_point(int d, const VVec& have, double apart = 0.02)
    {
        for (int k = 0; k < 30; k++) {
            VectorXd p = point(d);
            bool ok = true;
            for (auto& h : have)
                ok = ok && (h - p).norm() > apart;
            if (ok)
                return p;
        }
        sim::discard();
    }

    // exact posterior of a zero-mean prior over residuals
    struct Posterior {
        MatrixXd K, R, Kinv;
        double logdet;
        template <typename Kernel>
        Posterior(const Kernel& k, const VVec& x, const MatrixXd& resid) : R(resid)
        {
            int n = (int)x.size();
            K.resize(n, n);
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++)
                    K(i, j) = k(x[i], x[j]) + (i == j ? k.noise() + 1e-8 : 0);
            Eigen::PartialPivLU<MatrixXd> lu(K);
            Kinv = lu.inverse();
            Eigen::LLT<MatrixXd> llt(K);
            MatrixXd L = llt.matrixL();
            logdet = 2 * L.diagonal().array().log().sum();
        }
        template <typename Kernel>
        VectorXd mu(const Kernel& k, const VVec& x, const VectorXd& v, const VectorXd& mean) const
        {
            return mean + (kv(k, x, v).transpose() * Kinv * R).transpose();
        }
        template <typename Kernel>
        double var(const Kernel& k, const VVec& x, const VectorXd& v) const
        {
            VectorXd q = kv(k, x, v);
            double r = k(v, v) - q.dot(Kinv * q);
            return (r < 0 ? 0 : r) + k.noise();
        }
        template <typename Kernel>
        static VectorXd kv(const Kernel& k, const VVec& x, const VectorXd& v)
        {
            VectorXd q(x.size());
            for (size_t i = 0; i < x.size(); i++)
                q[i] = k(x[i], v);
            return q;
        }
        double log_lik() const { return -0.5 * (R.transpose() * Kinv * R).trace() - 0.5 * logdet - 0.5 * R.rows() * std::log(2 * M_PI); }
        double loo() const
        {
            double s = 0;
            MatrixXd A = Kinv * R;
            for (int c = 0; c < R.cols(); c++)
                for (int i = 0; i < R.rows(); i++) {
                    double s2 = 1 / Kinv(i, i);
                    s += -0.5 * std::log(s2) - 0.5 * A(i, c) * A(i, c) * s2 - 0.5 * std::log(2 * M_PI);
                }
            return s;
        }
    };
    inline MatrixXd rows(const VVec& v)
    {
        MatrixXd m(v.size(), v.empty() ? 0 : v[0].size());
        for (size_t i = 0; i < v.size(); i++)
            m.row(i) = v[i].transpose();
        return m;
    }
}
