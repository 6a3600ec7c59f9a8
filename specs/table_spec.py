"""The data functions on tables, as specifications (C19)"""

import functools

from bare_script.value import value_compare

from specs.value_spec import spec_boolean


def sort_step(key, row1, row2):
    """How one sort key [field, descending] orders two rows: negative, 0 (the next key decides) or positive"""
    a, b = row1.get(key[0]), row2.get(key[0])
    if len(key) > 1 and key[1]:
        return -value_compare(a, b)
    return value_compare(a, b)


def sort_rows(data, compare_rows):
    """Stably ordered, in place"""
    data.sort(key=functools.cmp_to_key(compare_rows))
    return data


def filter_step(value, row):
    """The rows that a row adds to the result"""
    return [row] if spec_boolean(value) else []
