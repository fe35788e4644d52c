CHECKS = {
	'D01': ('checks_dom', 'D01'),
	'D02': ('checks_dom', 'D02'),
	'D04': ('checks_dom', 'D04'),
	'D05': ('checks_dom', 'D05'),
	'D06': ('checks_dom', 'D06'),
	'D03': ('checks_dom', 'D03'),
	'D07': ('checks_rand', 'D07'),
	'F01': ('checks_fun', 'F01'),
	'F02': ('checks_demo', 'F02'),
	'B01': ('checks_bas', 'B01'),
	'B02': ('checks_bas', 'B02'),
	'R01': ('checks_ridge', 'R01'),
	'R02': ('checks_ridge', 'R02'),
	'O01': ('checks_opt', 'O01'),
	'O02': ('checks_opt', 'O02'),
	'O03': ('checks_opt', 'O03'),
	'L01': ('checks_lip', 'L01'),
	'L02': ('checks_lip', 'L02'),
	'A01': ('checks_active', 'A01'),
	'P01': ('checks_plot', 'P01'),
	'G01': ('checks_geo', 'G01'),
	'K01': ('checks_gp', 'K01'),
	'S01': ('checks_samp', 'S01'),
	'S02': ('checks_samp', 'S02'),
	'S03': ('checks_samp', 'S03'),
	'S04': ('checks_design', 'S04'),
	'S05': ('checks_design', 'S05'),
}
