"""Patterns generated by RegexGen as Python regular expressions."""
import re


def chars(t):
  return list(t)


def render(p):
  out = '^' if p['start'] else ''
  for a in p['atoms']:
    out += {'word': lambda: re.escape(a['w']), 'any': lambda: '.',  # pylint: disable=cell-var-from-loop
            'star': lambda: '.*', 'set': lambda: '[' + a['w'] + ']'}[a['k']]()  # pylint: disable=cell-var-from-loop
  return out + ('$' if p['end'] else '')


def spell(p):
  """The pattern with words as lists of characters, for the judge."""
  return dict(start=p['start'], end=p['end'],
              atoms=[dict(k=a['k'], w=chars(a['w'])) for a in p['atoms']])
