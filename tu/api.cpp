// Instantiates the public templates of the library at opaque (declared but
// undefined) functor types, so that the exported bodies are those of the real
// templates and the functors are arbitrary.
#include "rehuel.hpp"
#include "test_equations.hpp"

struct vp_ode {
	typedef arma::mat jac_type;
	arma::vec fun(double t, const arma::vec &y);
	arma::mat jac(double t, const arma::vec &y);
};
struct vp_sys {
	typedef arma::mat jac_type;
	arma::vec fun(const arma::vec &x);
	arma::mat jac(const arma::vec &x);
};
struct vp_elem {
	vp_elem();
	vp_elem(const vp_elem &);
	vp_elem &operator=(const vp_elem &);
	~vp_elem();
	int opaque;
};
std::ostream &operator<<(std::ostream &o, const vp_elem &);

template erk::rk_output erk::odeint<vp_ode>(vp_ode &, double, double, const arma::vec &,
        erk::solver_options, const output_options &, int, double);
template erk::rk_output erk::odeint<vp_ode>(vp_ode &, double, double, const arma::vec &);
template irk::rk_output irk::odeint<vp_ode>(vp_ode &, double, double, const arma::vec &,
        irk::solver_options, const output_options &, int, double);
template irk::rk_output irk::odeint<vp_ode>(vp_ode &, double, double, const arma::vec &);
template int irk::newton_solve_stages<vp_ode, true, true>(vp_ode &, const arma::vec &, double,
        double, const irk::solver_coeffs &, int, int, double, double, arma::vec &, arma::mat &,
        newton::status &, std::size_t &, std::size_t &);
template int irk::newton_solve_stages<vp_ode, true, false>(vp_ode &, const arma::vec &, double,
        double, const irk::solver_coeffs &, int, int, double, double, arma::vec &, arma::mat &,
        newton::status &, std::size_t &, std::size_t &);
template int irk::newton_solve_stages<vp_ode, false, false>(vp_ode &, const arma::vec &, double,
        double, const irk::solver_coeffs &, int, int, double, double, arma::vec &, arma::mat &,
        newton::status &, std::size_t &, std::size_t &);
template arma::vec newton::newton_iterate<vp_sys>(vp_sys &, arma::vec, const newton::options &,
        newton::status &, bool);
template arma::vec newton::broyden_iterate<vp_sys>(vp_sys &, arma::vec, const newton::options &,
        newton::status &, bool);
template arma::mat newton::approx_jacobi_matrix<vp_sys>(const arma::vec &, vp_sys &, double);
template bool newton::verify_jacobi_matrix<vp_sys>(const arma::vec &, vp_sys &);
template basic_output multistep::adams_bashforth<vp_ode>(vp_ode &, double, double,
        const arma::vec &, const multistep::solver_options &, double);
template multistep::multistep_output multistep::bdf<vp_ode>(vp_ode &, double, double,
        const arma::vec &, const multistep::solver_options &, double);
template class cyclic_buffer<vp_elem>;
