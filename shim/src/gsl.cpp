// Stand-in for the part of GSL that pyBBN uses: QUADPACK's QAG, following the
// published algorithm (rescale_error, round-off tests, return codes included).
// Each allocation, qag entry and integrand evaluation is a scheduling point.
#include <gsl/gsl_errno.h>
#include <gsl/gsl_integration.h>
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "gk_tables.h"
#include "vsched.h"

extern "C" {

static gsl_error_handler_t *handler = (gsl_error_handler_t *) 1;
gsl_error_handler_t *gsl_set_error_handler_off(void) { auto o = handler; handler = nullptr; return o; }
gsl_error_handler_t *gsl_set_error_handler(gsl_error_handler_t *h) { auto o = handler; handler = h; return o; }

const char *gsl_strerror(const int e) {
    switch (e) {
        case GSL_SUCCESS: return "success";
        case GSL_EINVAL: return "invalid argument supplied by user";
        case GSL_EFAILED: return "generic failure";
        case GSL_EBADTOL: return "specified tolerance is invalid or theoretically unattainable";
        case GSL_EROUND: return "failed to reach tolerance because of roundoff error";
        case GSL_ESING: return "apparent singularity detected";
        case GSL_EMAXITER: return "exceeded max number of iterations";
        default: return "unknown error code";
    }
}

static int fail(const char *reason, int code) {
    if (handler == (gsl_error_handler_t *) 1) {   // GSL's default handler aborts
        fprintf(stderr, "gsl: ERROR: %s\nDefault GSL error handler invoked.\n", reason);
        abort();
    }
    if (handler) handler(reason, "gsl.cpp", 0, code);
    return code;
}

gsl_integration_workspace *gsl_integration_workspace_alloc(const size_t n) {
    vs_point(VS_ALLOC);
    if (n == 0) { fail("workspace length n must be positive integer", GSL_EDOM); return nullptr; }
    auto *w = (gsl_integration_workspace *) malloc(sizeof(gsl_integration_workspace));
    w->alist = (double *) malloc(n * sizeof(double));
    w->blist = (double *) malloc(n * sizeof(double));
    w->rlist = (double *) malloc(n * sizeof(double));
    w->elist = (double *) malloc(n * sizeof(double));
    w->order = (size_t *) malloc(n * sizeof(size_t));
    w->level = (size_t *) malloc(n * sizeof(size_t));
    w->size = 0; w->limit = n; w->nrmax = 0; w->i = 0; w->maximum_level = 0;
    vs_live_workspaces(+1);
    return w;
}

void gsl_integration_workspace_free(gsl_integration_workspace *w) {
    vs_point(VS_ALLOC);
    if (!w) return;
    free(w->alist); free(w->blist); free(w->rlist); free(w->elist); free(w->order); free(w->level);
    free(w);
    vs_live_workspaces(-1);
}
}

static double rescale_error(double err, const double result_abs, const double result_asc) {
    err = fabs(err);
    if (result_asc != 0 && err != 0) {
        double scale = pow((200 * err / result_asc), 1.5);
        err = scale < 1 ? result_asc * scale : result_asc;
    }
    if (result_abs > DBL_MIN / (50 * DBL_EPSILON)) {
        double min_err = 50 * DBL_EPSILON * result_abs;
        if (min_err > err) err = min_err;
    }
    return err;
}

static thread_local int depth = 0;
struct DepthGuard { DepthGuard() { ++depth; } ~DepthGuard() { --depth; } };

static double eval(const gsl_function *f, double x) {
    vs_point(depth >= 2 ? VS_INNER : VS_OUTER);
    return GSL_FN_EVAL(f, x);
}

static void qk(int n, const double *xgk, const double *wg, const double *wgk,
               const gsl_function *f, double a, double b,
               double *result, double *abserr, double *resabs, double *resasc) {
    double fv1[32], fv2[32];
    const double center = 0.5 * (a + b), half_length = 0.5 * (b - a), abs_half = fabs(half_length);
    const double f_center = eval(f, center);
    double rg = 0, rk = f_center * wgk[n - 1], rabs = fabs(rk), rasc = 0, mean = 0;
    if (n % 2 == 0) rg = f_center * wg[n / 2 - 1];
    for (int j = 0; j < (n - 1) / 2; j++) {
        const int jtw = j * 2 + 1;
        const double d = half_length * xgk[jtw];
        const double f1 = eval(f, center - d), f2 = eval(f, center + d), s = f1 + f2;
        fv1[jtw] = f1; fv2[jtw] = f2;
        rg += wg[j] * s; rk += wgk[jtw] * s; rabs += wgk[jtw] * (fabs(f1) + fabs(f2));
    }
    for (int j = 0; j < n / 2; j++) {
        const int m = j * 2;
        const double d = half_length * xgk[m];
        const double f1 = eval(f, center - d), f2 = eval(f, center + d);
        fv1[m] = f1; fv2[m] = f2;
        rk += wgk[m] * (f1 + f2); rabs += wgk[m] * (fabs(f1) + fabs(f2));
    }
    mean = rk * 0.5;
    rasc = wgk[n - 1] * fabs(f_center - mean);
    for (int j = 0; j < n - 1; j++) rasc += wgk[j] * (fabs(fv1[j] - mean) + fabs(fv2[j] - mean));
    double err = (rk - rg) * half_length;
    rk *= half_length; rabs *= abs_half; rasc *= abs_half;
    *result = rk; *resabs = rabs; *resasc = rasc; *abserr = rescale_error(err, rabs, rasc);
}

extern "C" int gsl_integration_qag(const gsl_function *f, double a, double b, double epsabs, double epsrel,
                                   size_t limit, int key, gsl_integration_workspace *w,
                                   double *result, double *abserr) {
    vs_point(VS_QAG);
    DepthGuard g;
    int n; const double *x, *wg, *wk;
    if (key < 1) key = 1;
    if (key > 6) key = 6;
    switch (key) {
        case 1: n = 8; x = xgk_15; wg = wg_15; wk = wgk_15; break;
        case 2: n = 11; x = xgk_21; wg = wg_21; wk = wgk_21; break;
        case 3: n = 16; x = xgk_31; wg = wg_31; wk = wgk_31; break;
        case 4: n = 21; x = xgk_41; wg = wg_41; wk = wgk_41; break;
        case 5: n = 26; x = xgk_51; wg = wg_51; wk = wgk_51; break;
        default: n = 31; x = xgk_61; wg = wg_61; wk = wgk_61; break;
    }
    w->size = 0; w->nrmax = 0; w->i = 0; w->maximum_level = 0;
    w->alist[0] = a; w->blist[0] = b; w->rlist[0] = 0; w->elist[0] = 0; w->order[0] = 0; w->level[0] = 0;
    *result = 0; *abserr = 0;
    if (limit > w->limit) return fail("iteration limit exceeds available workspace", GSL_EINVAL);
    if (epsabs <= 0 && (epsrel < 50 * DBL_EPSILON || epsrel < 0.5e-28))
        return fail("tolerance cannot be achieved with given epsabs and epsrel", GSL_EBADTOL);

    double r0, e0, ra0, rs0;
    qk(n, x, wg, wk, f, a, b, &r0, &e0, &ra0, &rs0);
    w->size = 1; w->rlist[0] = r0; w->elist[0] = e0;
    double tol = std::max(epsabs, epsrel * fabs(r0));
    double roff = 50 * DBL_EPSILON * ra0;
    if (e0 <= roff && e0 > tol) {
        *result = r0; *abserr = e0;
        return fail("cannot reach tolerance because of roundoff error on first attempt", GSL_EROUND);
    } else if ((e0 <= tol && e0 != rs0) || e0 == 0.0) {
        *result = r0; *abserr = e0;
        return GSL_SUCCESS;
    } else if (limit == 1) {
        *result = r0; *abserr = e0;
        return fail("a maximum of one iteration was insufficient", GSL_EMAXITER);
    }
    double area = r0, errsum = e0;
    size_t iteration = 1;
    int t1 = 0, t2 = 0, type = 0;
    auto cmp = [w](size_t p, size_t q) { return w->elist[p] < w->elist[q]; };
    std::vector<size_t> heap(1, 0);
    do {
        std::pop_heap(heap.begin(), heap.end(), cmp);
        size_t k = heap.back(); heap.pop_back();
        const double a_i = w->alist[k], b_i = w->blist[k], r_i = w->rlist[k], e_i = w->elist[k];
        const double a1 = a_i, b1 = 0.5 * (a_i + b_i), a2 = b1, b2 = b_i;
        double ar1, er1, ab1, as1, ar2, er2, ab2, as2;
        qk(n, x, wg, wk, f, a1, b1, &ar1, &er1, &ab1, &as1);
        qk(n, x, wg, wk, f, a2, b2, &ar2, &er2, &ab2, &as2);
        const double ar12 = ar1 + ar2, er12 = er1 + er2;
        errsum += (er12 - e_i); area += ar12 - r_i;
        if (as1 != er1 && as2 != er2) {
            double delta = r_i - ar12;
            if (fabs(delta) <= 1.0e-5 * fabs(ar12) && er12 >= 0.99 * e_i) t1++;
            if (iteration >= 10 && er12 > e_i) t2++;
        }
        tol = std::max(epsabs, epsrel * fabs(area));
        if (errsum > tol) {
            if (t1 >= 6 || t2 >= 20) type = 2;
            const double tmp = (1 + 100 * DBL_EPSILON) * (fabs(a2) + 1000 * DBL_MIN);
            if (fabs(a1) <= tmp && fabs(b2) <= tmp) type = 3;
        }
        size_t j = w->size++;
        w->alist[k] = a1; w->blist[k] = b1; w->rlist[k] = ar1; w->elist[k] = er1;
        w->alist[j] = a2; w->blist[j] = b2; w->rlist[j] = ar2; w->elist[j] = er2;
        heap.push_back(k); std::push_heap(heap.begin(), heap.end(), cmp);
        heap.push_back(j); std::push_heap(heap.begin(), heap.end(), cmp);
        iteration++;
    } while (iteration < limit && !type && errsum > tol);
    double sum = 0;
    for (size_t k = 0; k < w->size; k++) sum += w->rlist[k];
    *result = sum; *abserr = errsum;
    if (errsum <= tol) return GSL_SUCCESS;
    if (type == 2) return fail("roundoff error prevents tolerance from being achieved", GSL_EROUND);
    if (type == 3) return fail("bad integrand behavior found in the integration interval", GSL_ESING);
    if (iteration == limit) return fail("maximum number of subdivisions reached", GSL_EMAXITER);
    return fail("could not integrate function", GSL_EFAILED);
}
