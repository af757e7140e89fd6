def check_variable_validity_range(variable_name, formula_name, values, min_value, max_value):
    return None
