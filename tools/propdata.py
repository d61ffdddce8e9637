'''The properties, in one place; `python3 tools/propdata.py` writes properties.jsonl and MANIFEST.json.'''

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the Python source (AST-instrumented) with Z3 deciding every branch and assertion'
TECH_SH = ('symbolic execution of the generated Bash script (generated by the current source on every run) with Z3 '
           'deciding every branch and assertion')
PROPS = []
NOT_APPLICABLE = []


def P(pid, title, statement, over, over_text, why, files, mech, note, technique=TECH, observe=None, na=None):
    d = {'id': pid, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': over_text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    PROPS.append((d, note, technique, na))


P('C01', 'Quoted text reads back literally in each shell',
  'For any text without NUL, the word that crazy-complete writes into a generated script to stand for that text is '
  'read by Bash, Zsh and Fish as exactly one word whose value is that text: nothing is expanded, split, globbed or '
  'dropped. Writing several such words next to each other keeps them separate.',
  ['inputs'], 'every text of up to the stated length over all characters except NUL, for each of the three shells',
  'The tests quote a handful of texts; whether a text is left bare, and how its special characters are escaped, '
  'depends on every character and its position, and no test runs the shell on the result.',
  ['crazy_complete/shell.py'],
  [('per-shell quoting of a word', 'shell.py: quote'), ('joining quoted words', 'shell.py: join_quoted')],
  'Bounded: texts of up to 4 (quick) or 6 (thorough) characters, every character but NUL symbolic. The words are '
  'read back by readers of the three shells\' word syntax written for this check; a sample of every run is '
  'compared with real bash and zsh.')

P('C04', 'Bash patterns for options and commands match exactly those',
  'The shell pattern that crazy-complete writes to recognise a set of option strings or command names matches '
  'every one of them and no other text. Merging strings with common beginnings, endings or digit runs into '
  'shorter patterns never changes what is matched.',
  ['inputs'], 'every set of up to k strings of up to n characters, against every text of up to m characters',
  'The merging rules depend on how the strings overlap; the tests fix a few sets and compare the pattern text, not '
  'the language it matches.',
  ['crazy_complete/bash_patterns.py'],
  [('merging strings into a pattern', 'bash_patterns.py: make_pattern, ...')],
  'Bounded: up to 3 to 4 strings of up to 3 characters over several alphabets. The pattern is interpreted by an '
  'extglob matcher written for this check.')

P('C05', 'Abbreviations are accepted exactly when unambiguous',
  'When abbreviations are allowed, a shortened option or command is accepted for an option or command exactly when '
  'it is a beginning of that one and of no other one. The full spelling is always accepted, even when it is the '
  'beginning of another.',
  ['inputs', 'configurations'], 'every set of up to k option strings or command names of up to n characters',
  'Ambiguity depends on every pair of names; the tests use one small command line.',
  ['crazy_complete/bash_parser.py', 'crazy_complete/algo.py', 'crazy_complete/utils.py'],
  [('shortest unambiguous prefixes', 'utils.py/algo.py abbreviation generators')],
  'Bounded: 3 (quick) or 4 (thorough) names of up to 4 or 5 characters; end to end: command lines of two words of 3 '
  'to 4 symbolic characters over a family of definitions with abbreviations, the generated Bash script executed '
  'symbolically.')

P('C07', 'When-conditions: exactly the well-formed expressions are accepted',
  'A `when` condition is accepted exactly when it is a well-formed expression over the documented commands, `&&`, '
  '`||`, `!` and parentheses; anything else is reported as an error and never silently misread. What is accepted '
  'keeps every word, operator and grouping that was written, in order.',
  ['inputs'], 'every text of up to n characters, and every sequence of up to k words and operators',
  'The tests parse a dozen expressions; the parser\'s decision depends on every token and its position.',
  ['crazy_complete/shell_parser.py', 'crazy_complete/when.py'],
  [('lexing and parsing conditions', 'shell_parser.py: Lexer, parse')],
  'Bounded: conditions of 6 or 7 arbitrary characters and of 6 to 8 tokens. Decided against a reference grammar.')

P('C08', 'File-ignore globs keep their meaning in every shell',
  'A glob that excludes file names excludes the same names in every shell it is translated for: the translation '
  'for Fish (a regular expression) and for Zsh match exactly the names that the glob matches in Bash. This is '
  'stated for globs made of ordinary name characters, `*`, `?`, character classes and extended groups.',
  ['inputs'], 'every such glob of up to n characters against every name of up to m characters',
  'The tests compare the translated text of a few globs; equality of languages is over all globs and all names.',
  ['crazy_complete/pattern.py'],
  [('glob translation', 'pattern.py: bash_glob_to_regex, bash_glob_to_zsh_glob')],
  'Bounded: globs of 4 or 5 characters, names of 2 or 3 characters, all symbolic. One listed finding in Zsh.')

P('C06', 'Conditions hide and show options as documented',
  'An option or positional with a `when` condition is suggested exactly when the condition holds for what has been '
  'typed so far: has_option, option_is (any, nocase, several options), positional_count and positional_contains, '
  'combined with `&&` and `||` (equal precedence, from left to right), `!` and parentheses, mean what the '
  'documentation says.',
  ['inputs', 'configurations'], 'every command line of the stated size over a family of definitions with conditions',
  'The truth of a condition depends on the whole command line: spelling of options, repetition, values, order. Tests '
  'try one line per operator.',
  ['crazy_complete/bash_when.py', 'crazy_complete/bash_parser.py', 'crazy_complete/bash_parser_v2.py', 'crazy_complete/when.py'],
  [('conditions in Bash', 'bash_when.py'), ('recording options and values', 'bash_parser.py, bash_parser_v2.py')],
  'Bounded: 24 conditions, two to three symbolic words of up to 3 characters. The real generator runs, its output is '
  'executed symbolically by an interpreter of Bash written for this check; sampled paths are replayed in real Bash. '
  'One listed finding.', TECH_SH)

P('C09', 'Bash: option arguments are completed wherever they may be written',
  'With the generated Bash script, completing an option\'s argument offers exactly its values that start with what '
  'was typed: as the next word, after `=`, attached to a short option, at the end of a cluster of short options, and '
  'for old-style options, according to whether the argument is required or optional and to long_opt_arg_sep. A '
  'word that is not such an argument is never completed as one.',
  ['inputs', 'configurations'], 'every command line of the stated size over families of definitions',
  'The generated parser has a case for every spelling and kind of option and they interact through the words that '
  'precede the cursor; the tests complete a few dozen fixed lines.',
  ['crazy_complete/bash_option_completion.py', 'crazy_complete/bash_parser.py', 'crazy_complete/bash_parser_v2.py',
   'crazy_complete/bash_patterns.py', 'crazy_complete/bash.py'],
  [('completing arguments', 'bash_option_completion.py'), ('parsing the command line', 'bash_parser.py, bash_parser_v2.py')],
  'Bounded: two or three symbolic words of up to 3 or 4 characters; both parser versions. Command lines whose meaning '
  'is not documented (unknown options, a flag with a value) are left out. Generated script executed symbolically; '
  'sampled paths replayed in real Bash.', TECH_SH)

P('C10', 'Bash: an option is suggested exactly when it may still be given',
  'With the generated Bash script, completing an option offers exactly the option strings that start with what was '
  'typed and belong to an option of the current command or of an ancestor whose options are inherited, that is not '
  'hidden, not already given (unless repeatable), not excluded by a group member or by a final option.',
  ['inputs', 'configurations'], 'every command line of the stated size over families of definitions and configurations',
  'Availability depends on everything typed before and on five attributes and their global switches; tests try a '
  'few combinations.',
  ['crazy_complete/bash_option_strings_completion.py', 'crazy_complete/bash_parser.py', 'crazy_complete/bash_parser_v2.py',
   'crazy_complete/generation.py'],
  [('listing option strings', 'bash_option_strings_completion.py'), ('configuration', 'generation.py: apply_config')],
  'Bounded: two or three symbolic words of up to 4 characters; both parser versions. Generated script executed '
  'symbolically; sampled paths replayed in real Bash.', TECH_SH)

P('C13', 'Bash: positionals and subcommands are counted and dispatched correctly',
  'With the generated Bash script, a word that is not an option or an option\'s argument is completed as the '
  'positional with its number - counted across the levels of subcommands, repeatable ones taking all that follow - '
  'or as a subcommand name or alias. After a subcommand its own options and positionals are completed, plus the '
  'options of ancestors whose options are inherited. `--` ends the options. Words after the cursor do not matter.',
  ['inputs', 'configurations'], 'every command line of the stated size over families of definitions',
  'Numbering depends on every earlier word; the tests complete a few fixed lines.',
  ['crazy_complete/bash.py', 'crazy_complete/bash_positionals_completion.py', 'crazy_complete/bash_parser_subcommand_code.py',
   'crazy_complete/cli.py'],
  [('positionals', 'bash_positionals_completion.py'), ('subcommands', 'bash.py, bash_parser_subcommand_code.py'),
   ('numbering', 'cli.py: get_positional_num')],
  'Bounded: three or four symbolic words of up to 2 characters; both parser versions. Generated script executed '
  'symbolically; sampled paths replayed in real Bash.', TECH_SH)

TECH_FISH = TECH_SH.replace('Bash', 'Fish')

P('C11', 'Fish: entries are active exactly when they apply',
  'With the generated Fish script, the `complete` entry of an option is active exactly when the option may still be '
  'given: it belongs to the current command or to an ancestor whose options are inherited, is not already given '
  '(unless repeatable), not excluded by a group member or a final option, not after `--`, and its condition holds. '
  'Hidden options are not suggested but their arguments are. The values of a positional and the names of subcommands '
  'are offered exactly at their position, across the levels of subcommands. Entries carry the option\'s own strings '
  'and values, and require an argument exactly when the option does. Words after the cursor do not matter.',
  ['inputs', 'configurations'], 'every command line of the stated size over families of definitions',
  'Whether an entry is active depends on every earlier word; the tests complete a few fixed lines.',
  ['crazy_complete/fish.py', 'crazy_complete/fish_helpers.py', 'crazy_complete/fish_conditions.py',
   'crazy_complete/fish_prepare.py', 'crazy_complete/fish_utils.py'],
  [('entries and their conditions', 'fish.py, fish_conditions.py'), ('parsing the command line', 'fish_helpers.py: query_init'),
   ('known options per command', 'fish_prepare.py')],
  'Bounded: two to four symbolic words of up to 2 to 4 characters. The generated script is executed symbolically by an '
  'interpreter of Fish written for this check; sampled paths are replayed in real Fish. Trusted: Fish\'s own engine that '
  'matches entries against the word under the cursor. One listed finding.', TECH_FISH)

P('C02', 'Fish: texts of the definition reach the completion unchanged',
  'In a generated Fish script, every option string, description, value, description of a value and subcommand name that '
  'a complete entry carries reads back as the text of the definition, whatever characters it contains: nothing is '
  'expanded, split, dropped or added, through both layers of reading (the script, then the entry). Conditions compare '
  'with exactly the texts of the definition, so entries are active for those words and no others, also for subcommand '
  'names, group members and values with special characters.',
  ['inputs', 'configurations'], 'every text of the stated length over all characters except NUL (values: no newline or tab, '
  'which Fish uses as separators; option strings and commands: printable ASCII)',
  'Conditions and arguments are quoted twice (for the script and for the entry), and the rules of Fish differ from the '
  'other shells; the tests use plain texts and compare golden files.',
  ['crazy_complete/fish.py', 'crazy_complete/fish_utils.py', 'crazy_complete/fish_complete.py', 'crazy_complete/fish_conditions.py',
   'crazy_complete/shell.py'],
  [('complete commands', 'fish_utils.py: FishCompleteCommand'), ('conditions', 'fish_conditions.py: make_condition_command'),
   ('values', 'fish_complete.py: FishCompleteChoices')],
  'Bounded: texts of 1 to 3 (quick) or 2 to 4 symbolic characters. The whole script is generated with the symbolic text in '
  'it and executed by an interpreter of Fish; sampled paths are replayed in real Fish.', TECH_FISH)

TECH_ZSH = TECH_SH.replace('Bash', 'Zsh')

P('C03', 'Zsh: texts of the definition reach _arguments unchanged',
  'In the specifications that a generated Zsh script passes to _arguments, every option string, description, metavar, '
  'value, description of a value and subcommand name reads back as the text of the definition, whatever characters it '
  'contains: nothing is expanded, no character is dropped or added, and no text spills into another part of the '
  'specification. Exclusion lists name the strings of the option and of its group exactly, and a subcommand with '
  'special characters in its name is recognised.',
  ['inputs', 'configurations'], 'every text of the stated length over all characters except NUL (option strings: printable '
  'ASCII that _arguments can express)',
  'Text passes through three layers of quoting (shell, specification, list of values) whose special characters '
  'overlap; the tests use a handful of plain texts and compare golden files.',
  ['crazy_complete/zsh_utils.py', 'crazy_complete/zsh_complete.py', 'crazy_complete/zsh.py', 'crazy_complete/shell.py'],
  [('option and positional specifications', 'zsh_utils.py: make_option_spec, make_positional_spec'),
   ('values in a specification or function', 'zsh_complete.py: ZshCompleteChoices')],
  'Bounded: texts of 1 to 3 (quick) or up to 4 symbolic characters. The whole script is generated with the symbolic '
  'text in it and executed by an interpreter of Zsh; the specifications are read by a decoder written from the manual '
  'and computil.c. A backslash at the end of a metavar or before a colon in it, and a leading *, cannot be expressed and '
  'are outside. One listed finding: texts of several lines are indented with the code.', TECH_ZSH)

P('C12', 'Zsh: _arguments gets exactly the options and positionals that apply',
  'For every command line, a generated Zsh script passes one call of _arguments the specifications that describe the '
  'current command: every option of the command and every inherited one, with its own strings, value form (none, '
  'required, optional; attached, with = or separate, following the configured separator), values, repeatability, group '
  'and final exclusions, hidden when it is hidden; options of ancestors that are not inherited are known but hidden. '
  'Positionals and subcommand names have their overall number and values. Conditional options and positionals are '
  'there exactly when their condition holds.',
  ['inputs', 'configurations'], 'every command line of the stated size over families of definitions and configurations',
  'Which specifications are passed depends on every earlier word (subcommand dispatch, options with arguments, --); '
  'the tests complete a few fixed lines.',
  ['crazy_complete/zsh.py', 'crazy_complete/zsh_utils.py', 'crazy_complete/zsh_helpers.py', 'crazy_complete/zsh_when.py',
   'crazy_complete/generation.py'],
  [('specifications per command', 'zsh.py: _generate_option_parsing'), ('parsing the command line', 'zsh_helpers.py: query'),
   ('subcommand dispatch', 'zsh.py: _generate_subcommand_call')],
  'Bounded: two to four symbolic words of up to 3 characters. The generated script is executed symbolically by an '
  'interpreter of Zsh written for this check; sampled paths are replayed in real Zsh. Trusted: _arguments itself.', TECH_ZSH)

P('C25', 'File-extension filters accept exactly the listed extensions',
  'A completer restricted to file extensions offers exactly the files whose name ends in a dot and one of the '
  'extensions, ignoring letter case in Bash and Zsh as documented and, with fuzzy matching, those whose extension '
  'starts with a listed one. This holds the same way in all three shells.',
  ['inputs', 'configurations'], 'every list of up to k extensions of up to n characters, against every file name of up to m characters',
  'The tests compare the generated pattern for a couple of extensions.',
  ['crazy_complete/bash_complete.py', 'crazy_complete/zsh_complete.py', 'crazy_complete/fish_complete.py', 'crazy_complete/pattern.py'],
  [('extension patterns per shell', '*_complete.py: file completers')],
  'Bounded: up to 2 extensions of up to 3 characters, names of up to 6 characters.')


P('C14', 'Converting a definition to YAML or JSON and back changes nothing',
  'Writing a command line definition as YAML, as JSON or as dictionaries and reading the result again yields the same '
  'definition: every text, value, flag, completer, group, condition and subcommand, with the same types and order. The '
  'conversion leaves the definition it was given as it was.',
  ['inputs', 'configurations'], 'every text of up to n characters in every kind of field, and every combination of the other fields',
  'YAML gives many characters and words a meaning of their own; which text survives depends on every character in it. The '
  'tests convert a fixed set of definitions.',
  ['crazy_complete/yaml_source.py', 'crazy_complete/json_source.py', 'crazy_complete/dictionary_source.py',
   'crazy_complete/extended_yaml_parser.py', 'crazy_complete/scheme_validator.py'],
  [('writing YAML', 'yaml_source.py: option_to_yaml, commandline_to_yaml'), ('writing JSON', 'json_source.py: commandline_to_json'),
   ('dictionaries', 'dictionary_source.py: dictionaries_to_commandline, commandline_to_dictionaries')],
  'Bounded: texts of 2 (quick) or 3 symbolic characters (printable ASCII, control characters, and others that YAML or JSON treat in a way of '
  'their own) in help, metavar, values, groups, names and completers; all combinations of the remaining fields. PyYAML runs '
  'symbolically, too; json is a model that sampled paths compare with the real one.')

P('C16', 'A definition is refused with a message, or scripts are generated from it',
  'Whatever a definition in YAML or JSON looks like, validation ends by accepting it or by reporting what is wrong with it and '
  'where; it never fails with an internal error. From a definition that was accepted, a script is generated for every '
  'shell, or a message says why not; generation never fails with an internal error. Valid definitions are accepted.',
  ['inputs'], 'every definition that differs from a valid one at one place, or at two neighbouring ones',
  'The tests try a list of mistakes, one per message; validation must hold for any value at any place, and the generators '
  'rely on what it has checked.',
  ['crazy_complete/scheme_validator.py', 'crazy_complete/dictionary_source.py', 'crazy_complete/str_utils.py', 'crazy_complete/when.py',
   'crazy_complete/bash.py', 'crazy_complete/fish.py', 'crazy_complete/zsh.py'],
  [('validation', 'scheme_validator.py'), ('what relies on it', 'bash.py, fish.py, zsh.py, dictionary_source.py')],
  'Bounded: about 40 valid definitions covering every field and completer; at each place the value is dropped, replaced by or '
  'extended with values of every type (texts of up to 2 symbolic characters). The place, the kind and the value are symbolic choices.')

P('C20', 'YAML: what is validated is what is used',
  'The values of a YAML document that are validated, and that messages point at, are the values from which scripts are '
  'generated: for every document, the parser that keeps line numbers and the one that loads the values yield equal structures '
  'and types, or the document is refused.',
  ['inputs'], 'every scalar and every small document of up to n characters',
  'The document is read by two different parsers; whether they agree on a scalar such as `0x1`, `1e3` or `~` depends on each of '
  'its characters. The tests use ordinary words.',
  ['crazy_complete/extended_yaml_parser.py', 'crazy_complete/yaml_source.py'],
  [('parser with line numbers', 'extended_yaml_parser.py: ExtendedYAMLParser'), ('loading', 'yaml_source.py: load_from_file')],
  'Bounded: scalars of up to 2 (quick) or 3 symbolic characters after 14 beginnings; documents of 4 or 5 characters. Both parsers and PyYAML run symbolically.')

P('C26', 'Bash: option strings, values and commands are literal text',
  'Whatever printable characters an option string, a value to choose, a subcommand name or alias, or a value in a '
  'condition consists of, a generated Bash script treats it as that text. It is offered so that inserting it yields '
  'exactly that text; it is recognised on the command line when it is typed, and nothing else is taken for it. Two '
  'options or subcommands whose names merely look alike (differing in punctuation, dashes, underscores, or one being '
  'the beginning of the other) are kept apart.',
  ['inputs'], 'every option string, value, name and condition value of up to n printable ASCII characters',
  'Which character has a meaning depends on where the text ends up in the script (pattern, variable name, word list, '
  'bracket expression); the tests use letters and dashes.',
  ['crazy_complete/bash_patterns.py', 'crazy_complete/bash_utils.py', 'crazy_complete/bash_parser.py', 'crazy_complete/bash_parser_v2.py',
   'crazy_complete/bash_option_completion.py', 'crazy_complete/bash_option_strings_completion.py',
   'crazy_complete/bash_parser_subcommand_code.py', 'crazy_complete/bash_complete.py', 'crazy_complete/bash_when.py', 'crazy_complete/bash.py'],
  [('patterns for names', 'bash_patterns.py, bash_utils.py: CasePatterns'), ('variables per option', 'bash_utils.py: VariableManager'),
   ('offering words', 'bash_helpers.py: values; bash_option_strings_completion.py'), ('subcommand paths', 'bash_parser_subcommand_code.py')],
  'Bounded: texts of 1 to 2 (quick) or up to 3 symbolic characters, short and long options, with small and large sets '
  'of other options (the two parsers). The whole script is generated with the symbolic text in it and executed '
  'symbolically; offered words are read back as Bash reads them. Words before the cursor are typed with backslashes '
  'where Bash needs them; the word under the cursor and the one before it are typed bare, so names that need quotes '
  'are not tried there.', TECH_SH)

P('C23', 'Lists, key-value pairs and prefixes complete the element at the cursor',
  'In Bash and Fish, while a list of values or of key-value pairs is typed, as a positional or as an option argument, after any separator, '
  'exactly the elements that can come next are offered: for the last element only, appended to what was typed before it '
  'unchanged, without values already in the list (unless duplicates are allowed), without keys that were given and may '
  'not be repeated or are excluded by a given key; after a key and its separator, the values of that key and of no other. '
  'With a prefix, the prefix is offered until it is typed and the values behind it from then on.',
  ['inputs', 'histories'], 'every typed word over the letters of the values, an unknown letter and the separators, up to the length bound',
  'What is offered depends on the whole word typed so far, where separators, known and unknown elements may stand in any order.',
  ['crazy_complete/bash_helpers.py', 'crazy_complete/bash_complete.py', 'crazy_complete/fish_helpers.py', 'crazy_complete/fish_complete.py',
   'crazy_complete/utils.py'],
  [('lists in Bash', 'bash_helpers.py: value_list, key_value_list, prefix_compreply'), ('lists in Fish', 'fish_helpers.py: list, key_value_list, key_value_pair, prefix')],
  'Bounded: words of up to 2 or 3 (quick) symbolic characters, or one more, after several beginnings; three values, five '
  'keys (with and without values, repeatable, excluding), several separators including `:`, which ends a word for '
  'Readline. Replies are read as Readline inserts them. Left open: what is offered at an element that is complete already, '
  'and lists that may repeat values in Fish, which its own function completes. Zsh hands lists to its own _values.', TECH_SH)

P('C19', 'Every function in a generated script has its own name',
  'In a generated Bash, Zsh or Fish script, no two functions share a name: the completion functions of any two '
  'subcommands, the functions for the values of options and positionals, and the helper functions are all distinct, '
  'however similar the names of subcommands, option strings or metavars are. The names contain no character with a '
  'special meaning in the shell. Each subcommand is therefore completed with its own options.',
  ['inputs'], 'every pair of subcommand names, every option string, metavar and program name of up to n characters',
  'Names collide only for particular pairs (a-b and a_b, "a b" and "a_b", a metavar that is the name of a helper); '
  'the tests have no such pair.',
  ['crazy_complete/helpers.py', 'crazy_complete/shell.py', 'crazy_complete/bash.py', 'crazy_complete/zsh.py'],
  [('names of completion functions', 'helpers.py: make_completion_funcname'), ('names of dynamic functions', 'helpers.py: get_dynamic_funcname'),
   ('making identifiers', 'shell.py: make_identifier')],
  'Bounded: names of 1 to 2 (quick) or up to 3 symbolic characters, one or two levels of subcommands. For Bash the '
  'script is also executed symbolically inside each of the two subcommands.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as fh:
        for d, *_ in PROPS:
            assert len(d['title']) <= 80, d['title']
            fh.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks = []
    na = list(NOT_APPLICABLE)
    for d, note, technique, reason in PROPS:
        pid = d['id']
        if reason:
            na.append({'property': pid, 'reason': reason})
            continue
        checks.append({'property': pid,
                       'quick_cmd': f'python3-vt check.py {pid}',
                       'thorough_cmd': f'python3-vt check.py {pid} --tier thorough',
                       'technique': technique, 'level': 'model_checking', 'level_note': note})
    man = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write('\n')


if __name__ == '__main__':
    main()
