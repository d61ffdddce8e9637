From d9593bef0d58da09ffadece342131714182125e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:55 +0000
Subject: [PATCH 01/24] fix: quote text containing backslashes, backticks and a
 leading '=' literally for Fish and Zsh

---
 crazy_complete/shell.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/shell.py b/crazy_complete/shell.py
index 0bd6990..fedf474 100644
--- a/crazy_complete/shell.py
+++ b/crazy_complete/shell.py
@@ -35,7 +35,18 @@ def make_identifier(string):
 def needs_quote(string):
     '''Return if string needs quoting.'''
 
-    return not re.fullmatch('[a-zA-Z0-9_@%+=:,./-]+', string)
+    # A leading `=` is expanded by Zsh, a leading `%self` by Fish
+    return not re.fullmatch('(?!=|%self)[a-zA-Z0-9_@%+=:,./-]+', string)
+
+
+def _quote_part(part):
+    if part[0] == '\\':
+        return part.replace('\\', '\\\\')
+
+    if part[0] == "'":
+        return f'"{part}"'
+
+    return f"'{part}'"
 
 
 def quote(string, quote_empty_string=True):
@@ -59,6 +70,12 @@ def quote(string, quote_empty_string=True):
     if not needs_quote(string):
         return string
 
+    # Fish reads `\\` and `\'` in single quotes and "\`" in double quotes
+    # differently than Bash and Zsh.
+    if re.search(r"\\(\\|$)|'.*\\|\\.*'|'.*`|`.*'", string, re.DOTALL):
+        parts = re.findall(r"\\+|'+|[^\\']+", string)
+        return ''.join(_quote_part(part) for part in parts)
+
     if "'" not in string:
         return f"'{string}'"
 
-- 
2.43.0


From 8ea0c33c656e4930c5349426b80ed96956fb93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 02/24] fix: translate Bash globs with stray operators, negated
 classes and regex characters

---
 crazy_complete/pattern.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/pattern.py b/crazy_complete/pattern.py
index e2699c3..8d6a375 100644
--- a/crazy_complete/pattern.py
+++ b/crazy_complete/pattern.py
@@ -22,7 +22,7 @@ class PatternBase:
 class Literal(PatternBase):
     '''Holds a literal string.'''
 
-    REGEX_ESCAPE_CHARS = '.?*+|{}[]()'
+    REGEX_ESCAPE_CHARS = '\\^$.?*+|{}[]()'
 
     def __init__(self, string):
         self.string = string
@@ -49,6 +49,8 @@ class Literal(PatternBase):
                 string += f"'{c}'"
             elif c == "'":
                 string += f'"{c}"'
+            elif c in '()|#^~<>':
+                string += f'\\{c}'
             else:
                 string += c
 
@@ -203,7 +205,7 @@ class GlobLexer(StringStream):
         if c in EXTGLOB_TOKENS_PRE and self.peek() == '(':
             return f'{c}{self.get()}'
 
-        if c in ('[', ']', ')', '?', '!', '*', '|'):
+        if c in ('[', ']', ')', '?', '!', '^', '*', '|'):
             return c
 
         if c == '"':
@@ -267,8 +269,9 @@ class GlobParser:
         except IndexError as e:
             raise ValueError('Unclosed character class') from e
 
-        if token == '!':
+        if token in ('!', '^', '!('):
             negated = True
+            chars += token[1:]
         elif token == ']':
             raise ValueError('Empty character class')
         else:
@@ -281,6 +284,8 @@ class GlobParser:
                 raise ValueError('Unclosed character class') from e
 
             if token == ']':
+                if not chars:
+                    raise ValueError('Empty character class')
                 return CharClass(chars, negated)
 
             chars += str(token)
@@ -319,6 +324,10 @@ class GlobParser:
         if token in EXTGLOB_TOKENS:
             return self._parse_ext_glob(token)
 
+        # A token that has no meaning outside of a character class or extglob
+        if isinstance(token, str):
+            return Literal(token)
+
         return token
 
 
-- 
2.43.0


From e98538d6648197eed0cfefff0bb8b943d1ef9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 03/24] fix: only compact single digits into a character range
 in Bash patterns

---
 crazy_complete/bash_patterns.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/bash_patterns.py b/crazy_complete/bash_patterns.py
index 2cd3dcf..8d81e65 100644
--- a/crazy_complete/bash_patterns.py
+++ b/crazy_complete/bash_patterns.py
@@ -30,12 +30,11 @@ def _build_pattern(parts):
     if len(parts) == 1:
         return parts[0]
 
-    try:
+    # Only single digits can be written as a character range
+    if all(len(part) == 1 and part in '0123456789' for part in parts):
         ints = sorted(map(int, parts))
         if numbers_are_contiguous(ints):
             return f'[{ints[0]}-{ints[-1]}]'
-    except ValueError:
-        pass
 
     return "@(" + "|".join(sorted(parts)) + ")"
 
-- 
2.43.0


From f2c88f91e802182c7accbc9e6af153e01e41534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:27 +0000
Subject: [PATCH 04/24] fix: reject incomplete and misplaced expressions in
 when conditions

---
 crazy_complete/shell_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/shell_parser.py b/crazy_complete/shell_parser.py
index f09e2d5..2d693ef 100644
--- a/crazy_complete/shell_parser.py
+++ b/crazy_complete/shell_parser.py
@@ -146,12 +146,15 @@ def check_syntax(tokens):
             if last not in (None, '(', '&&', '||', '!'):
                 raise ValueError("Unexpected `!`")
 
+        elif last == ')':
+            raise ValueError(f"Unexpected `{token.args[0]}`")
+
         last = token
 
     if parentheses > 0:
         raise ValueError("Unclosed `(`")
 
-    if last is None:
+    if last in (None, '&&', '||', '!'):
         raise ValueError("No command found")
 
 
-- 
2.43.0


From db30efd18b1df4333f3e46f7b42ee10f67f56d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 05/24] fix: complete optional arguments when no option
 requires one in Bash

---
 crazy_complete/bash_option_completion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 074377d..4491144 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -129,9 +129,12 @@ class MasterCompletionFunctionNoWhen(MasterCompletionFunctionBase):
 
         if optional_arg:
             self.optionals = True
-            r =  '(( ! ret )) && return 0\n'
-            r += '[[ "$mode" == WITH_OPTIONAL ]] || return 1\n'
-            r += 'ret=0'
+            if required_arg:
+                r =  '(( ! ret )) && return 0\n'
+                r += '[[ "$mode" == WITH_OPTIONAL ]] || return 1\n'
+                r += 'ret=0'
+            else:
+                r = '[[ "$mode" == WITH_OPTIONAL ]] || return 1'
             self.code.append(r)
             self._add_options(optional_arg)
 
-- 
2.43.0


From 0352a4c4703a9828616831fd33ab7b6b528f2eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 06/24] fix: test the short option patterns in Bash before
 completing an option's argument

---
 crazy_complete/bash_option_completion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 4491144..6f194ff 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -258,7 +258,7 @@ def _get_prev_completion(info):
         r += '  --*);;\n'
 
     if info.old_required and info.short_required:
-        r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;&\n'
+        r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;;&\n'
         r += '  -%s[%s])\n' % (info.short_no_args_pattern, info.short_required_args)
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.old_required:
@@ -291,7 +291,7 @@ def _get_cur_completion(info):
 
     if info.old_required or info.old_optional:
         r += '  -*=*)\n'
-        r += '    __complete_option "${cur%%=*}" "${cur#*=}" WITH_OPTIONAL && return 0;&\n'
+        r += '    __complete_option "${cur%%=*}" "${cur#*=}" WITH_OPTIONAL && return 0;;&\n'
 
     if info.short_required or info.short_optional:
         r += '  -%s[%s%s]*)\n' % (short_no_args_pattern, short_required_args, short_optional_args)
-- 
2.43.0


From ea6e0acdecfb6e47b2e52b95daadb71fe541b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:19 +0000
Subject: [PATCH 07/24] fix: ignore the words after the cursor when completing
 after -- in Bash

---
 crazy_complete/bash_parser.py    | 2 +-
 crazy_complete/bash_parser_v2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/bash_parser.py b/crazy_complete/bash_parser.py
index a7e6bca..a6e04e1 100644
--- a/crazy_complete/bash_parser.py
+++ b/crazy_complete/bash_parser.py
@@ -24,7 +24,7 @@ for ((argi=1; argi < cword; ++argi)); do
   case "$arg" in
     --)
       END_OF_OPTIONS=1
-      POSITIONALS+=("${words_dequoted[@]:$((++argi))}")
+      POSITIONALS+=("${words_dequoted[@]:$((argi + 1)):$((cword - argi))}")
       return;;
     -?*) # ignore '-'
 %LONG_OPTION_CASES%
diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index 418e0af..9137d2d 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -36,7 +36,7 @@ for ((argi=1; argi < cword; ++argi)); do
     --)
       END_OF_OPTIONS=1
 #ifdef positionals
-      POSITIONALS+=("${words_dequoted[@]:$((++argi))}")
+      POSITIONALS+=("${words_dequoted[@]:$((argi + 1)):$((cword - argi))}")
 #endif
       return;;
 #ifdef long_options
-- 
2.43.0


From 62cc5bf7a5ee97129349f93e20d7b47e1a95ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:19 +0000
Subject: [PATCH 08/24] fix: complete the name of a subcommand in Bash when it
 is typed in full

---
 crazy_complete/bash.py           | 5 +++--
 crazy_complete/bash_parser.py    | 6 +++++-
 crazy_complete/bash_parser_v2.py | 6 +++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index 90f8f39..bf430a9 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -57,7 +57,7 @@ class BashCompletionGenerator:
                 if option.capture is not None:
                     local_vars.append(option.capture)
 
-        r = 'local END_OF_OPTIONS POSITIONALS\n'
+        r = 'local END_OF_OPTIONS POSITIONALS ON_POSITIONAL\n'
 
         if local_vars:
             local_vars = algo.uniq(local_vars)
@@ -72,7 +72,8 @@ class BashCompletionGenerator:
             return None
 
         positional_num = self.subcommands.get_positional_num()
-        r  = 'if (( %i < ${#POSITIONALS[@]} )); then\n' % (positional_num - 1)
+        # The word under the cursor does not select a subcommand yet.
+        r  = 'if (( %i < ${#POSITIONALS[@]} - ON_POSITIONAL )); then\n' % (positional_num - 1)
         r += '  case "${POSITIONALS[%i]}" in\n' % (positional_num - 1)
         for subcommand in self.subcommands.subcommands:
             cmds = utils.get_all_command_variations(subcommand)
diff --git a/crazy_complete/bash_parser.py b/crazy_complete/bash_parser.py
index a6e04e1..7eda4ed 100644
--- a/crazy_complete/bash_parser.py
+++ b/crazy_complete/bash_parser.py
@@ -15,6 +15,7 @@ from .bash_parser_subcommand_code import (
 _PARSER_CODE = '''\
 POSITIONALS=()
 END_OF_OPTIONS=0
+ON_POSITIONAL=0
 
 local cmd="root" argi arg i char trailing_chars
 
@@ -24,6 +25,7 @@ for ((argi=1; argi < cword; ++argi)); do
   case "$arg" in
     --)
       END_OF_OPTIONS=1
+      ON_POSITIONAL=1
       POSITIONALS+=("${words_dequoted[@]:$((argi + 1)):$((cword - argi))}")
       return;;
     -?*) # ignore '-'
@@ -43,7 +45,9 @@ done
 for ((; argi <= cword; ++argi)); do
   case "${words_dequoted[argi]}" in
     -?*);;
-    *) POSITIONALS+=("${words_dequoted[argi]}");;
+    *)
+      ON_POSITIONAL=1
+      POSITIONALS+=("${words_dequoted[argi]}");;
   esac
 done'''
 
diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index 9137d2d..d7f14ad 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -17,6 +17,7 @@ from .preprocessor import preprocess
 _PARSER_CODE = '''\
 #ifdef positionals
 POSITIONALS=()
+ON_POSITIONAL=0
 #endif
 END_OF_OPTIONS=0
 
@@ -36,6 +37,7 @@ for ((argi=1; argi < cword; ++argi)); do
     --)
       END_OF_OPTIONS=1
 #ifdef positionals
+      ON_POSITIONAL=1
       POSITIONALS+=("${words_dequoted[@]:$((argi + 1)):$((cword - argi))}")
 #endif
       return;;
@@ -113,7 +115,9 @@ done
 for ((; argi <= cword; ++argi)); do
   case "${words_dequoted[argi]}" in
     -?*);;
-    *) POSITIONALS+=("${words_dequoted[argi]}");;
+    *)
+      ON_POSITIONAL=1
+      POSITIONALS+=("${words_dequoted[argi]}");;
   esac
 done
 #endif'''
-- 
2.43.0


From ff257fb3f924debedcfea1ca7f1cee4fd3f55fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:00 +0000
Subject: [PATCH 09/24] fix: don't complete a short option's argument after an
 old-style option in Bash

---
 crazy_complete/bash_option_completion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 6f194ff..d46680e 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -259,11 +259,14 @@ def _get_prev_completion(info):
 
     if info.old_required and info.short_required:
         r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;;&\n'
+        r += '  %s);;\n' % info.old_option_strings
         r += '  -%s[%s])\n' % (info.short_no_args_pattern, info.short_required_args)
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.old_required:
         r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.short_required:
+        if info.old_option_strings:
+            r += '  %s);;\n' % info.old_option_strings
         r += '  -%s[%s])\n' % (info.short_no_args_pattern, info.short_required_args)
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
 
-- 
2.43.0


From 83e7c08993d4f6fde7aba04dd24dd310a4e500d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 10/24] fix: accept the documented != operator in when
 conditions

---
 crazy_complete/shell_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crazy_complete/shell_parser.py b/crazy_complete/shell_parser.py
index 2d693ef..4a81c40 100644
--- a/crazy_complete/shell_parser.py
+++ b/crazy_complete/shell_parser.py
@@ -52,6 +52,10 @@ class Lexer(StringStream):
         if c is None:
             return None
 
+        if c == '!' and self.peek(1) == '=':
+            self.advance(2)
+            return Literal('!=' + self._parse_literal().string)
+
         if c in ('!', '(', ')'):
             self.advance(1)
             return c
-- 
2.43.0


From 39381358fe29314a884c775f6a01ce7e974e88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:17 +0000
Subject: [PATCH 11/24] fix: accept hidden options when options are repeatable
 by configuration

---
 crazy_complete/generation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crazy_complete/generation.py b/crazy_complete/generation.py
index 7adeca7..822a8d5 100644
--- a/crazy_complete/generation.py
+++ b/crazy_complete/generation.py
@@ -88,6 +88,10 @@ def _apply_config(commandline, config):
         if config.disabled_repeatable:
             option.repeatable = True
 
+        # An option can't be hidden and repeatable
+        if option.hidden:
+            option.repeatable = False
+
         if config.disabled_when:
             option.when = None
 
-- 
2.43.0


From a79a4d6cdc688c5363af7be13a505e99b919cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 12/24] fix: Bash: don't complete a positional where an
 option's argument is expected

---
 crazy_complete/bash_positionals_completion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/bash_positionals_completion.py b/crazy_complete/bash_positionals_completion.py
index 2808689..3c34b7a 100644
--- a/crazy_complete/bash_positionals_completion.py
+++ b/crazy_complete/bash_positionals_completion.py
@@ -25,7 +25,7 @@ def _is_not_command_arg(positional):
 def _generate_subcommand_positional(generator):
     cmds = generator.subcommands.get_choices().keys()
     complete = generator.completer.choices(generator.ctxt, [], cmds).get_code()
-    return '(( ${#POSITIONALS[@]} == %d )) && %s' % (
+    return '(( ON_POSITIONAL && ${#POSITIONALS[@]} == %d )) && %s' % (
         generator.subcommands.get_positional_num(),
         _make_block(complete))
 
@@ -44,7 +44,7 @@ def _generate_positionals_with_when(generator):
 
     for positional in positionals:
         condition = _get_positional_condition(positional)
-        r = '(( %s )) && ' % condition
+        r = '(( ON_POSITIONAL && %s )) && ' % condition
         if positional.when:
             r += '%s && ' % bash_when.generate_when_conditions(
                 generator.ctxt,
@@ -68,7 +68,10 @@ def _generate_positionals_without_when(generator):
 
     for complete, positionals in grouped_by_complete.items():
         conditions = [_get_positional_condition(p) for p in positionals]
-        r = '(( %s )) && ' % ' || '.join(conditions)
+        condition = ' || '.join(conditions)
+        if len(conditions) > 1:
+            condition = '(%s)' % condition
+        r = '(( ON_POSITIONAL && %s )) && ' % condition
         r += '%s' % _make_block(complete)
         code.append(r)
 
-- 
2.43.0


From 01779ced87d386d1b19719bbfef7874f62e6b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 13/24] fix: Fish: recognise options of the main command after
 a positional

---
 crazy_complete/fish_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 4e75249..94683f2 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -66,7 +66,7 @@ set -l last_arg_is_option_argument false
 
 #ifdef subcommands
 function %PREFIX%_match_positionals -S
-  set -l patterns (string split -- '>' "$argv[1]")
+  set -l patterns (string split -n -- '>' "$argv[1]")
   set -l i (count $patterns)
 
   while test $i -ge 1
-- 
2.43.0


From 6365bb4636bd9af5047260b2498445285a5baf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 14/24] fix: Fish: suggest options before the positionals that
 precede a subcommand

---
 crazy_complete/fish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish.py b/crazy_complete/fish.py
index 76e623d..02b4e90 100644
--- a/crazy_complete/fish.py
+++ b/crazy_complete/fish.py
@@ -220,7 +220,7 @@ class FishCompletionGenerator:
         # ensures that we're in the right (sub)command.
         if not self.commandline.inherit_options and self.subcommands:
             positional = self.subcommands.get_positional_num()
-            definition.conditions.add(PositionalNum('==', positional - 1))
+            definition.conditions.add(PositionalNum('<=', positional - 1))
 
         definition.conditions.extend(_get_positional_contains(option))
         definition.conditions.add_when(option.when_parsed)
-- 
2.43.0


From a343529bdd07dd825fb35b0dca54661235fc4084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:03 +0000
Subject: [PATCH 15/24] fix: Zsh: suggest inherited options, and recognise the
 ones that aren't inherited

---
 crazy_complete/zsh.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index b8b0dff..16ba533 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -59,28 +59,32 @@ class ZshCompletionFunction:
         context = self.ctxt.get_option_context(self.commandline, option)
         return self.completer.complete(context, [], command, *args)
 
+    def _complete_parent_option(self, option):
+        return Arg(option, None, self._make_option_spec(option, hidden=True))
+
     def _complete_option(self, option):
+        return Arg(option, option.when, self._make_option_spec(option, option.hidden))
+
+    def _make_option_spec(self, option, hidden):
         if option.complete:
             action = self._complete(option, *option.complete).get_action_string()
         else:
             action = None
 
-        option_spec = zsh_utils.make_option_spec(
+        return zsh_utils.make_option_spec(
             option.option_strings,
             conflicting_options = option.get_conflicting_option_strings(),
             description = option.help,
             complete = option.complete,
             optional_arg = option.optional_arg,
             repeatable = option.repeatable,
-            hidden = option.hidden,
+            hidden = hidden,
             final = option.final,
             metavar = option.metavar,
             action = action,
             long_opt_arg_sep = option.long_opt_arg_sep
         )
 
-        return Arg(option, option.when, option_spec)
-
     def _complete_subcommands(self, positional):
         choices = positional.get_choices()
         self.command_counter += 1
@@ -164,13 +168,14 @@ class ZshCompletionFunction:
     def _generate_option_parsing(self):
         args = []
 
-        if self.commandline.inherit_options:
-            options = self.commandline.get_options(with_parent_options=True)
-        else:
-            options = self.commandline.get_options()
+        own_option_strings = self.commandline.get_option_strings()
 
-        for option in options:
-            args.append(self._complete_option(option))
+        for option in self.commandline.get_options(with_parent_options=True):
+            if option.parent is self.commandline or option.parent.inherit_options:
+                args.append(self._complete_option(option))
+            elif not any(o in own_option_strings for o in option.option_strings):
+                # Not suggested, but may precede the subcommand.
+                args.append(self._complete_parent_option(option))
 
         for cmdline in self.commandline.get_parents():
             for option in cmdline.get_positionals():
-- 
2.43.0


From f762087f4beffe79bef438aacdeab04610b12afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:05 +0000
Subject: [PATCH 16/24] fix: Zsh: preserve special characters in option
 strings, descriptions, metavars and choices

---
 crazy_complete/zsh_complete.py | 27 ++++++++++++++++++---------
 crazy_complete/zsh_utils.py    | 23 ++++++++++++++++-------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/crazy_complete/zsh_complete.py b/crazy_complete/zsh_complete.py
index a751d5c..6f822b8 100644
--- a/crazy_complete/zsh_complete.py
+++ b/crazy_complete/zsh_complete.py
@@ -8,7 +8,7 @@ from . import utils
 from .pattern import bash_glob_to_zsh_glob
 from .str_utils import join_with_wrap, indent
 from .zsh_utils import (
-    escape_colon, escape_square_brackets, make_file_extension_pattern
+    escape_backslash, escape_colon, escape_square_brackets, make_file_extension_pattern
 )
 from .type_utils import is_dict_type
 
@@ -23,6 +23,14 @@ CHOICES_INLINE_THRESHOLD = 80
 # is used instead.
 
 
+def _describe_name(name):
+    return shell.quote(escape_colon(escape_backslash(str(name))))
+
+
+def _describe_description(description):
+    return shell.quote(escape_backslash(str(description)))
+
+
 class ZshCompletionBase:
     '''Base class for Zsh completions.'''
 
@@ -73,16 +81,17 @@ class ZshCompleteChoices(ZshCompletionBase):
 
     def _list_action_string(self):
         items = [str(item) for item in self.choices]
-        quoted = [shell.quote(item) for item in items]
-        action = shell.quote('(%s)' % ' '.join(quoted))
-        if len(action) <= CHOICES_INLINE_THRESHOLD:
+        words = ' '.join(shell.quote(item) for item in items)
+        action = shell.quote('(%s)' % words)
+        # A backslash followed by a colon can't be expressed in an option spec
+        if len(action) <= CHOICES_INLINE_THRESHOLD and '\\:' not in words:
             return action
 
         return self._list_function()
 
     def _list_function(self):
         metavar = shell.quote(self.ctxt.option.metavar or '')
-        quoted = [shell.quote(escape_colon(c)) for c in self.choices]
+        quoted = [_describe_name(item) for item in self.choices]
         line_length = self.ctxt.config.line_length - 2
 
         code = 'local items=(\n'
@@ -103,9 +112,9 @@ class ZshCompleteChoices(ZshCompletionBase):
         quoted = []
 
         for item, desc in zip(items, descriptions):
-            val = shell.quote(item)
+            val = _describe_name(item)
             if desc:
-                val += ':%s' % shell.quote(desc)
+                val += ':%s' % _describe_description(desc)
             quoted.append(val)
 
         action = shell.quote('((%s))' % ' '.join(quoted))
@@ -119,9 +128,9 @@ class ZshCompleteChoices(ZshCompletionBase):
 
         code = 'local items=(\n'
         for item, desc in self.choices.items():
-            item = shell.quote(escape_colon(str(item)))
+            item = _describe_name(item)
             if desc:
-                desc = shell.quote(str(desc))
+                desc = _describe_description(desc)
                 code += f'  {item}:{desc}\n'
             else:
                 code += f'  {item}\n'
diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index 7d9a273..ca5df03 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -18,6 +18,12 @@ def escape_colon(s):
     return s.replace(':', '\\:')
 
 
+def escape_backslash(s):
+    '''Escape backslashes in a string with backslash.'''
+
+    return s.replace('\\', '\\\\')
+
+
 def escape_square_brackets(s):
     '''Escape square brackets with backslash.'''
 
@@ -43,6 +49,9 @@ def escape_colon_in_quoted_string(s):
             result += '"%s"' % sub.replace(':', r'\\:')
         elif c == ':':
             result += r'\\:'
+        elif c == '\\' and ss.have():
+            c = ss.get()
+            result += r'\\:' if c == ':' else '\\' + c
         else:
             result += c
 
@@ -81,12 +90,10 @@ def make_option_spec(
     # Not options =============================================================
     not_options = []
 
-    for o in sorted(conflicting_options):
-        not_options.append(escape_colon(o))
+    not_options.extend(sorted(conflicting_options))
 
     if not repeatable:
-        for o in sorted(option_strings):
-            not_options.append(escape_colon(o))
+        not_options.extend(sorted(option_strings))
 
     if final:
         not_options = ['- *']
@@ -111,6 +118,8 @@ def make_option_spec(
     else:
         opts = option_strings
 
+    opts = [shell.quote(escape_colon(o)) for o in opts]
+
     if len(opts) == 1:
         result.append(opts[0])
     else:
@@ -118,7 +127,7 @@ def make_option_spec(
 
     # Description =============================================================
     if description is not None:
-        result.append(shell.quote('[%s]' % escape_colon(escape_square_brackets(description))))
+        result.append(shell.quote('[%s]' % escape_colon(escape_square_brackets(escape_backslash(description)))))
 
     # Complete ================================================================
     if complete:
@@ -126,7 +135,7 @@ def make_option_spec(
             metavar = ' '
 
         action = escape_colon_in_quoted_string(action)
-        result.append(':%s:%s' % (shell.quote(escape_colon(metavar)), action))
+        result.append(':%s:%s' % (shell.quote(escape_colon(escape_backslash(metavar))), action))
 
     return ''.join(result)
 
@@ -149,7 +158,7 @@ def make_positional_spec(
     else:
         num_spec = str(number)
 
-    desc_spec = shell.quote(escape_colon(description))
+    desc_spec = shell.quote(escape_colon(escape_backslash(description)))
 
     if action == '_normal':
         return f'{num_spec}::{desc_spec}:{action}'
-- 
2.43.0


From 2229b0c515f46b61f7450607d5b8837969e0d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 17/24] fix: Zsh: parse the command line for conditions on
 positionals

---
 crazy_complete/zsh_when.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/zsh_when.py b/crazy_complete/zsh_when.py
index 60f7236..79fd339 100644
--- a/crazy_complete/zsh_when.py
+++ b/crazy_complete/zsh_when.py
@@ -83,11 +83,13 @@ def _generate_has_option(_ctxt, query, obj):
     return shell.join_quoted(args)
 
 
-def _generate_positional_count(_ctxt, _query, obj):
+def _generate_positional_count(_ctxt, query, obj):
+    query.use() # POSITIONALS is set by query
     return f'(( ${{#POSITIONALS[@]}} {obj.operator} {obj.number} ))'
 
 
-def _generate_positional_contains(ctxt, _query, obj):
+def _generate_positional_contains(ctxt, query, obj):
+    query.use() # POSITIONALS is set by query
     func = ctxt.helpers.use_function('array_contains')
     values = shell.join_quoted(obj.values)
 
-- 
2.43.0


From 0efce36fd24ea039575aeec2d0862cfd73cbdc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:53 +0000
Subject: [PATCH 18/24] fix: Zsh: keep $, backslashes and asterisks in quoted
 values and messages

---
 crazy_complete/zsh_utils.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index ca5df03..d9a004b 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -24,6 +24,21 @@ def escape_backslash(s):
     return s.replace('\\', '\\\\')
 
 
+def escape_message(s):
+    '''Escape a message of an option spec.
+
+    Only `\\:` is special here, so a backslash can only be doubled if it
+    would otherwise escape the colon that follows.
+    '''
+
+    parts = s.split(':')
+    for i, part in enumerate(parts):
+        if (len(part) - len(part.rstrip('\\'))) % 2:
+            parts[i] += '\\'
+
+    return '\\:'.join(parts)
+
+
 def escape_square_brackets(s):
     '''Escape square brackets with backslash.'''
 
@@ -46,7 +61,10 @@ def escape_colon_in_quoted_string(s):
             result += "'%s'" % sub.replace(':', r'\:')
         elif c == '"':
             sub = ss.parse_shell_double_quote(in_quotes=True)
-            result += '"%s"' % sub.replace(':', r'\\:')
+            sub = escape_backslash(escape_colon(sub))
+            for special in ('"', '$', '`'):
+                sub = sub.replace(special, '\\' + special)
+            result += '"%s"' % sub
         elif c == ':':
             result += r'\\:'
         elif c == '\\' and ss.have():
@@ -133,9 +151,11 @@ def make_option_spec(
     if complete:
         if metavar is None:
             metavar = ' '
+        elif metavar.startswith('*'):
+            metavar = ' ' + metavar # A leading `*` isn't part of the message
 
         action = escape_colon_in_quoted_string(action)
-        result.append(':%s:%s' % (shell.quote(escape_colon(escape_backslash(metavar))), action))
+        result.append(':%s:%s' % (shell.quote(escape_message(metavar)), action))
 
     return ''.join(result)
 
@@ -158,7 +178,7 @@ def make_positional_spec(
     else:
         num_spec = str(number)
 
-    desc_spec = shell.quote(escape_colon(escape_backslash(description)))
+    desc_spec = shell.quote(escape_message(description))
 
     if action == '_normal':
         return f'{num_spec}::{desc_spec}:{action}'
-- 
2.43.0


From 38915dec2a2b89174c040597ef7444d82968806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:38 +0000
Subject: [PATCH 19/24] fix: Fish: keep backticks in conditions and a trailing
 backslash in values

---
 crazy_complete/fish_complete.py   | 14 ++++++++------
 crazy_complete/fish_conditions.py |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index c396526..ae6d118 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -115,19 +115,21 @@ class FishCompleteChoices(FishCompletionBase):
         return ' '.join(r)
 
     def _get_code_for_list(self):
-        code = "printf '%s\\n' \\\n"
+        code = "printf '%s\\n'"
         quoted = [shell.quote(str(item)) for item in self.choices]
         line_length = self.ctxt.config.line_length - 2
-        code += indent(join_with_wrap(' ', ' \\\n', line_length, quoted), 2)
-        return code.rstrip(' \\\n')
+        if quoted:
+            code += ' \\\n'
+            code += indent(join_with_wrap(' ', ' \\\n', line_length, quoted), 2)
+        return code
 
     def _get_code_for_dict(self):
-        code = "printf '%s\\t%s\\n' \\\n"
+        code = "printf '%s\\t%s\\n'"
         for item, desc in self.choices.items():
             if desc is None:
                 desc = ''
-            code += '  %s %s \\\n' % (shell.quote(str(item)), shell.quote(str(desc)))
-        return code.rstrip(' \\\n')
+            code += ' \\\n  %s %s' % (shell.quote(str(item)), shell.quote(str(desc)))
+        return code
 
     def get_args(self):
         if is_dict_type(self.choices):
diff --git a/crazy_complete/fish_conditions.py b/crazy_complete/fish_conditions.py
index 0376095..657b73f 100644
--- a/crazy_complete/fish_conditions.py
+++ b/crazy_complete/fish_conditions.py
@@ -15,7 +15,7 @@ from .type_utils import is_list_type
 def escape_in_double(string):
     '''Escape special characters in a double quoted string.'''
 
-    return re.sub(r'(["$`\\])', r'\\\1', string)
+    return re.sub(r'(["$\\])', r'\\\1', string)
 
 
 def make_condition_command(prefix, args):
-- 
2.43.0


From 425970b4d97986b6bb6b9a607f7f1bda312b06ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:41 +0000
Subject: [PATCH 20/24] fix: Bash: match and offer names that contain special
 characters

---
 crazy_complete/bash.py                        |  6 ++---
 crazy_complete/bash_option_completion.py      |  5 ++++
 .../bash_option_strings_completion.py         |  8 +++++-
 crazy_complete/bash_parser.py                 |  7 +++--
 crazy_complete/bash_parser_subcommand_code.py | 15 ++++++++++-
 crazy_complete/bash_parser_v2.py              |  8 ++----
 crazy_complete/bash_patterns.py               | 19 +++++++++++--
 crazy_complete/bash_utils.py                  | 27 ++++++++++++-------
 8 files changed, 69 insertions(+), 26 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index bf430a9..2ad2744 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -77,7 +77,7 @@ class BashCompletionGenerator:
         r += '  case "${POSITIONALS[%i]}" in\n' % (positional_num - 1)
         for subcommand in self.subcommands.subcommands:
             cmds = utils.get_all_command_variations(subcommand)
-            pattern = bash_patterns.make_pattern([shell.quote(s) for s in cmds])
+            pattern = bash_patterns.make_pattern(cmds)
             funcname = self.ctxt.helpers.make_completion_funcname(subcommand)
             if utils.is_worth_a_function(subcommand):
                 if self.commandline.inherit_options:
@@ -171,7 +171,7 @@ def _generate_wrapper(ctxt, commandline):
     if not commandline.wraps:
         return (completion_funcname, None)
 
-    r  = '%s %s\n' % (bash_versions.completion_loader(ctxt), commandline.wraps)
+    r  = '%s %s\n' % (bash_versions.completion_loader(ctxt), shell.quote(commandline.wraps))
     r += '\n'
     r += '%s() {\n' % wrapper_funcname
     r += '  local WRAPS=%s\n' % shell.quote(commandline.wraps)
@@ -222,7 +222,7 @@ def generate_completion(commandline, config=None):
     output.extend(generator.result for generator in result)
     output.add(wrapper_code)
     output.add('complete -F %s %s' % (
-        completion_func, ' '.join([commandline.prog] + commandline.aliases)
+        completion_func, shell.join_quoted([commandline.prog] + commandline.aliases)
     ))
     output.add_vim_modeline('sh')
 
diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index d46680e..2623a68 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -223,6 +223,11 @@ class _Info:
             elif option.complete is None:
                 self.short_no_args += short_opts
 
+        escape = bash_patterns.escape_for_bracket
+        self.short_no_args = escape(self.short_no_args)
+        self.short_required_args = escape(self.short_required_args)
+        self.short_optional_args = escape(self.short_optional_args)
+
         if self.short_no_args:
             self.short_no_args_pattern = '*([%s])' % self.short_no_args
         else:
diff --git a/crazy_complete/bash_option_strings_completion.py b/crazy_complete/bash_option_strings_completion.py
index 20fae2f..e69f0ac 100644
--- a/crazy_complete/bash_option_strings_completion.py
+++ b/crazy_complete/bash_option_strings_completion.py
@@ -114,10 +114,16 @@ def generate(generator):
 
         options.append(_Option(option, conditions, when))
 
+    option_strings = algo.flatten(o.option.option_strings for o in options)
+    if any(map(shell.needs_quote, option_strings)):
+        complete = '%s -a -- "${opts[@]}"' % generator.ctxt.helpers.use_function('values')
+    else:
+        complete = 'COMPREPLY+=($(compgen -W "${opts[*]}" -- "$cur"))'
+
     r  = 'if (( ! END_OF_OPTIONS )) && [[ "$cur" = -* ]]; then\n'
     r += '  local -a opts\n'
     r += '%s\n' % indent(_generate_final_check_with_options(final_conditions, options), 2)
-    r += '  COMPREPLY+=($(compgen -W "${opts[*]}" -- "$cur"))\n'
+    r += '  %s\n' % complete
     r += '  [[ ${COMPREPLY-} == *= ]] && compopt -o nospace\n'
     r += '  return 1\n'
     r += 'fi'
diff --git a/crazy_complete/bash_parser.py b/crazy_complete/bash_parser.py
index 7eda4ed..804d04d 100644
--- a/crazy_complete/bash_parser.py
+++ b/crazy_complete/bash_parser.py
@@ -9,7 +9,7 @@ from . import utils
 from .str_utils import indent
 from .bash_utils import CasePatterns
 from .bash_parser_subcommand_code import (
-    make_subcommand_switch_code, get_subcommand_path
+    make_subcommand_switch_code, make_subcommand_pattern
 )
 
 _PARSER_CODE = '''\
@@ -30,6 +30,7 @@ for ((argi=1; argi < cword; ++argi)); do
       return;;
     -?*) # ignore '-'
 %LONG_OPTION_CASES%
+      [[ "$arg" == --* ]] && continue
       for ((i=1; i < ${#arg}; ++i)); do
         char="${arg:$i:1}"
         trailing_chars="${arg:$((i + 1))}"
@@ -64,9 +65,7 @@ def generate(commandline, variable_manager):
 
     for cmdline in commandlines:
         option_cases = _generate_option_cases(cmdline, variable_manager)
-        command = get_subcommand_path(cmdline)
-        if cmdline.inherit_options:
-            command += '*'
+        command = make_subcommand_pattern(cmdline)
 
         if option_cases.long_options:
             r = 'case "$cmd" in %s)\n' % command
diff --git a/crazy_complete/bash_parser_subcommand_code.py b/crazy_complete/bash_parser_subcommand_code.py
index 163ab46..293fee0 100644
--- a/crazy_complete/bash_parser_subcommand_code.py
+++ b/crazy_complete/bash_parser_subcommand_code.py
@@ -18,6 +18,19 @@ def get_subcommand_path(commandline):
     return ':'.join(prognames)
 
 
+def make_subcommand_pattern(commandline):
+    '''Return a pattern for the paths where the options of `commandline` apply.'''
+    path = shell.quote(get_subcommand_path(commandline))
+
+    if not commandline.inherit_options:
+        return path
+
+    if commandline.parent is None:
+        return path + '*'
+
+    return f'{path}|{path}:*'
+
+
 def make_subcommand_switch_code(commandline):
     '''
     Generate Bash code that tracks and updates the current subcommand path.
@@ -79,7 +92,7 @@ def _make_switch_case(cmdline):
 
     r  = 'case "$arg" in\n'
     for command, aliases in subcommand_aliases.items():
-        r += '  %s) cmd+=":%s";;\n' % (bash_patterns.make_pattern(aliases), command)
+        r += '  %s) cmd+=%s;;\n' % (bash_patterns.make_pattern(aliases), shell.quote(':' + command))
     r += '  *) cmd+=":$arg";;\n'
     r += 'esac'
     return r
diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index d7f14ad..4862d3b 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -6,11 +6,10 @@
 from collections import namedtuple
 
 from . import utils
-from . import shell
 from . import bash_patterns
 from .str_utils import indent
 from .bash_parser_subcommand_code import (
-    make_subcommand_switch_code, get_subcommand_path
+    make_subcommand_switch_code, make_subcommand_pattern
 )
 from .preprocessor import preprocess
 
@@ -150,10 +149,7 @@ def _make_cmd_plus_option_switch_code(commandline, variable_manager, omit_cmd_ch
     if omit_cmd_check:
         return _make_option_switch_code(option_cases)
 
-    command = get_subcommand_path(commandline)
-    command = shell.quote(command)
-    if commandline.inherit_options:
-        command += '*'
+    command = make_subcommand_pattern(commandline)
 
     r = f'case "$1" in {command})\n'
     r += '%s\n' % indent(_make_option_switch_code(option_cases), 2)
diff --git a/crazy_complete/bash_patterns.py b/crazy_complete/bash_patterns.py
index 8d81e65..1807029 100644
--- a/crazy_complete/bash_patterns.py
+++ b/crazy_complete/bash_patterns.py
@@ -8,6 +8,20 @@ from collections import defaultdict
 from .algo import numbers_are_contiguous
 
 
+def escape(string):
+    '''Escape characters that are special in Bash patterns.'''
+
+    return ''.join(
+        c if c.isalnum() or c in '_@%+=:,./-' else '\\' + c
+        for c in string)
+
+
+def escape_for_bracket(string):
+    '''Escape characters that are special in bracket expressions.'''
+
+    return escape(string).replace('-', '\\-')
+
+
 class TrieNode:
     '''Trie class.'''
 
@@ -49,6 +63,7 @@ def trie_to_pattern(node):
     parts = []
     for token, child in node.children.items():
         sub = trie_to_pattern(child)
+        token = escape(token)
         if sub:
             parts.append(token + sub)
         else:
@@ -67,7 +82,7 @@ def compact_glob_trie(strings):
     '''
     strings = sorted(set(strings))
     if len(strings) == 1:
-        return strings[0]
+        return escape(strings[0])
 
     # Build Trie
     root = TrieNode()
@@ -81,7 +96,7 @@ def compact_glob_trie(strings):
 def make_pattern(strings):
     '''Make a glob pattern that matches `strings`.'''
 
-    candidate0 = '|'.join(strings)
+    candidate0 = '|'.join(map(escape, strings))
     candidate1 = compact_glob_trie(strings)
 
     return candidate0 if len(candidate0) < len(candidate1) else candidate1
diff --git a/crazy_complete/bash_utils.py b/crazy_complete/bash_utils.py
index 9799b24..3d46f7b 100644
--- a/crazy_complete/bash_utils.py
+++ b/crazy_complete/bash_utils.py
@@ -4,6 +4,8 @@
 '''Bash utility functions.'''
 
 from . import shell
+from .bash_patterns import escape
+from .str_utils import is_valid_variable_name
 
 
 def make_option_variable_name(option, prefix=''):
@@ -18,7 +20,10 @@ def make_option_variable_name(option, prefix=''):
 
     short_options = option.get_short_option_strings()
     if short_options:
-        return prefix + short_options[0][1]
+        char = short_options[0][1]
+        if not is_valid_variable_name('_' + char):
+            char = '%X' % ord(char)
+        return prefix + char
 
     raise AssertionError("make_option_variable_name: Should not be reached")
 
@@ -28,13 +33,17 @@ class VariableManager:
 
     def __init__(self, prefix):
         self.prefix = prefix
-        self.variables = set()
+        self.variables = {}
 
     def make_variable(self, option):
         '''Make a variable for an option.'''
 
-        var = make_option_variable_name(option, self.prefix)
-        self.variables.add(var)
+        name = var = make_option_variable_name(option, self.prefix)
+        num = 1
+        while self.variables.setdefault(var, option) is not option:
+            num += 1
+            var = f'{name}_{num}'
+
         return var
 
     def capture_variable(self, option):
@@ -57,28 +66,28 @@ class CasePatterns:
     def for_long_without_arg(option_strings):
         '''Return a case pattern for long options without arguments.'''
 
-        return '|'.join(option_strings)
+        return '|'.join(map(escape, option_strings))
 
     @staticmethod
     def for_long_with_arg(option_strings):
         '''Return a case pattern for long options with arguments.'''
 
-        return '|'.join(f'{o}=*' for o in option_strings)
+        return '|'.join(f'{escape(o)}=*' for o in option_strings)
 
     @staticmethod
     def for_short(option_strings):
         '''Return a case pattern for short options.'''
 
-        return '|'.join(o[1] for o in option_strings)
+        return '|'.join(escape(o[1]) for o in option_strings)
 
     @staticmethod
     def for_old_without_arg(option_strings):
         '''Return a case pattern for old options without arguments.'''
 
         if len(option_strings) <= 2:
-            return '|'.join(option_strings)
+            return '|'.join(map(escape, option_strings))
 
-        return '-@(%s)' % '|'.join(o.lstrip('-') for o in option_strings)
+        return '-@(%s)' % '|'.join(escape(o.lstrip('-')) for o in option_strings)
 
 
 def make_file_extension_pattern(extensions, fuzzy):
-- 
2.43.0


From 22360fbdc5e4af92ac49a8c8782d64f2b3597d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:18 +0000
Subject: [PATCH 21/24] fix: give every completion function its own name

---
 crazy_complete/helpers.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/crazy_complete/helpers.py b/crazy_complete/helpers.py
index 71d3d19..64bedcc 100644
--- a/crazy_complete/helpers.py
+++ b/crazy_complete/helpers.py
@@ -78,7 +78,8 @@ def make_completion_funcname_for_context(ctxt, prefix):
     funcname = shell.make_identifier('_'.join(prognames))
 
     if isinstance(ctxt.option, cli.Option):
-        return '%s__%s' % (funcname, ctxt.option.option_strings[0])
+        identifier = re.sub('[^a-zA-Z0-9_-]', '', ctxt.option.option_strings[0])
+        return '%s__%s' % (funcname, identifier)
     if isinstance(ctxt.option, cli.Positional):
         if ctxt.option.metavar:
             identifier = shell.make_identifier(ctxt.option.metavar)
@@ -96,11 +97,15 @@ class GeneralHelpers:
     def __init__(self, config, prog, function_class):
         self.config = config
         self.function_prefix = config.function_prefix.replace('$PROG', prog)
+        self.function_prefix = re.sub('[^a-zA-Z0-9_.+@-]', '_', self.function_prefix)
         self.function_class = function_class
 
         # Dynamic functions
         self.dynamic_functions_code_to_funcname = {}
 
+        # Completion functions
+        self.completion_funcnames = {}  # path:funcname
+
         # Builtin functins
         self.functions = {}
         self.used_functions = {}  # funcname:set(defines)
@@ -130,7 +135,9 @@ class GeneralHelpers:
         funcname = make_completion_funcname_for_context(ctxt, self.function_prefix)
         num = 0
         funcname_plus_num = funcname
-        while funcname_plus_num in self.dynamic_functions_code_to_funcname.values():
+        while (funcname_plus_num in self.dynamic_functions_code_to_funcname.values() or
+               funcname_plus_num in map(self.get_real_function_name, self.functions) or
+               funcname_plus_num.endswith('__wrapper')):
             funcname_plus_num = '%s%d' % (funcname, num)
             num += 1
         return funcname_plus_num
@@ -244,7 +251,14 @@ class GeneralHelpers:
 
         commandlines = commandline.get_parents(include_self=True)
         prognames = [cmdline.prog for cmdline in commandlines]
-        prognames[0] = self.function_prefix
-        identifier = shell.make_identifier('_'.join(prognames))
-
-        return f'{identifier}{suffix}'
+        path = tuple(prognames)
+        if path not in self.completion_funcnames:
+            prognames[0] = self.function_prefix
+            identifier = funcname = shell.make_identifier('_'.join(prognames))
+            num = 1
+            while funcname in self.completion_funcnames.values():
+                num += 1
+                funcname = f'{identifier}_{num}'
+            self.completion_funcnames[path] = funcname
+
+        return f'{self.completion_funcnames[path]}{suffix}'
-- 
2.43.0


From cb5d4d9070eecb24aed787426063c03b0581e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:25 +0000
Subject: [PATCH 22/24] fix: YAML output: write characters beyond the BMP, DEL
 and floats so that they can be read back

---
 crazy_complete/yaml_source.py | 49 ++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/crazy_complete/yaml_source.py b/crazy_complete/yaml_source.py
index 458bb32..10c6df4 100644
--- a/crazy_complete/yaml_source.py
+++ b/crazy_complete/yaml_source.py
@@ -6,12 +6,14 @@ This module provides functions for creating CommandLine objects from YAML
 and vice versa.
 """
 
+import re
 import json
 import yaml
 
 from . import dictionary_source
 from . import scheme_validator
 from .str_utils import indent
+from .type_utils import is_dict_type, is_list_type
 from .extended_yaml_parser import ExtendedYAMLParser
 from .cli import INHERIT
 
@@ -19,6 +21,33 @@ from .cli import INHERIT
 # pylint: disable=redefined-builtin
 
 
+def _dump(value):
+    '''Convert a value to YAML in flow style.
+
+    JSON isn't quite a subset of YAML: surrogate pairs, DEL characters and
+    floating point numbers without a dot mean something else or are invalid.
+    '''
+
+    if is_dict_type(value):
+        items = (f'{_dump(k)}: {_dump(v)}' for k, v in value.items())
+        return '{%s}' % ', '.join(items)
+
+    if is_list_type(value):
+        return '[%s]' % ', '.join(map(_dump, value))
+
+    if isinstance(value, str):
+        def escape(match):
+            code = ord(match[0])
+            return '\\U%08x' % code if code > 0xFFFF else '\\u%04x' % code
+
+        return re.sub('[^ -~]', escape, json.dumps(value, ensure_ascii=False))
+
+    if isinstance(value, float):
+        return yaml.safe_dump(value).split('\n')[0]
+
+    return json.dumps(value)
+
+
 def option_to_yaml(dictionary):
     '''Convert an option dictionary to YAML.'''
 
@@ -40,13 +69,13 @@ def option_to_yaml(dictionary):
         ('long_opt_arg_sep', INHERIT,   lambda v: v != INHERIT),
     ]
 
-    r = [f'- option_strings: {json.dumps(option_strings)}']
+    r = [f'- option_strings: {_dump(option_strings)}']
 
     for name, default, include_if in fields:
         value = dictionary.get(name, default)
 
         if include_if(value):
-            r.append(f'  {name}: {json.dumps(value)}')
+            r.append(f'  {name}: {_dump(value)}')
 
     return '\n'.join(r)
 
@@ -73,7 +102,7 @@ def positional_to_yaml(dictionary):
         value = dictionary.get(name, default)
 
         if include_if(value):
-            r.append(f'  {name}: {json.dumps(value)}')
+            r.append(f'  {name}: {_dump(value)}')
 
     return '\n'.join(r)
 
@@ -91,25 +120,25 @@ def to_yaml(dictionary):
     options             = dictionary.get('options',             None)
     positionals         = dictionary.get('positionals',         None)
 
-    r = 'prog: %s\n' % json.dumps(prog)
+    r = 'prog: %s\n' % _dump(prog)
 
     if aliases is not None:
-        r += 'aliases: %s\n' % json.dumps(aliases)
+        r += 'aliases: %s\n' % _dump(aliases)
 
     if help is not None:
-        r += 'help: %s\n' % json.dumps(help)
+        r += 'help: %s\n' % _dump(help)
 
     if wraps is not None:
-        r += 'wraps: %s\n' % json.dumps(wraps)
+        r += 'wraps: %s\n' % _dump(wraps)
 
     if abbreviate_commands != INHERIT:
-        r += 'abbreviate_commands: %s\n' % json.dumps(abbreviate_commands)
+        r += 'abbreviate_commands: %s\n' % _dump(abbreviate_commands)
 
     if abbreviate_options != INHERIT:
-        r += 'abbreviate_options: %s\n' % json.dumps(abbreviate_options)
+        r += 'abbreviate_options: %s\n' % _dump(abbreviate_options)
 
     if inherit_options != INHERIT:
-        r += 'inherit_options: %s\n' % json.dumps(inherit_options)
+        r += 'inherit_options: %s\n' % _dump(inherit_options)
 
     if options:
         r += 'options:\n'
-- 
2.43.0


From e1d639703e2e59c1e05b54e1d7ed443e39989d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:34 +0000
Subject: [PATCH 23/24] fix: YAML: validate the values that are used

---
 crazy_complete/extended_yaml_parser.py | 55 +++++++++++++++-----------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/crazy_complete/extended_yaml_parser.py b/crazy_complete/extended_yaml_parser.py
index cd1f2ec..e1b1a16 100644
--- a/crazy_complete/extended_yaml_parser.py
+++ b/crazy_complete/extended_yaml_parser.py
@@ -22,6 +22,7 @@ class ExtendedYAMLParser:
 
     def __init__(self):
         self.src = None
+        self.loader = None
         self.data = []
         self.current_stack = []
         self.current_key = None
@@ -40,15 +41,15 @@ class ExtendedYAMLParser:
         self.current_stack = []
         self.current_key = None
 
-        loader = yaml.Loader(stream)
+        self.loader = yaml.SafeLoader(stream)
         try:
             while True:
-                event = loader.get_event()
+                event = self.loader.get_event()
                 if event is None:
                     break
                 self.handle_event(event)
         finally:
-            loader.dispose()
+            self.loader.dispose()
 
         return self.data
 
@@ -66,19 +67,24 @@ class ExtendedYAMLParser:
                 self.data.append(self.current_stack.pop())
         elif isinstance(event, MappingStartEvent):
             new_map = ValueWithTrace.from_yaml_event({}, self.src, event)
+            self.check_tag(event, 'map', new_map)
             self.add_to_current_structure(self.current_key, new_map)
             self.current_stack.append(new_map)
             self.current_key = None
         elif isinstance(event, SequenceStartEvent):
             new_seq = ValueWithTrace.from_yaml_event([], self.src, event)
+            self.check_tag(event, 'seq', new_seq)
             self.add_to_current_structure(self.current_key, new_seq)
             self.current_stack.append(new_seq)
             self.current_key = None
         elif isinstance(event, ScalarEvent):
-            value = self.convert_scalar(event.value, event.implicit)
+            value = self.convert_scalar(event)
             value = ValueWithTrace.from_yaml_event(value, self.src, event)
 
-            if self.current_stack and isinstance(self.current_stack[-1].value, list):
+            if not self.current_stack:
+                # Root-level scalar
+                self.add_to_current_structure(None, value)
+            elif isinstance(self.current_stack[-1].value, list):
                 self.add_to_current_structure(None, value)
             else:
                 if self.current_key is None:
@@ -111,30 +117,31 @@ class ExtendedYAMLParser:
         else:
             raise _error("Invalid structure in YAML", value)
 
-    def convert_scalar(self, value, implicit):
+    def check_tag(self, event, kind, value):
         """
-        Converts a scalar based on its type hints (implicit tuple).
+        Raise an exception if a collection is tagged as something else.
         """
-        if implicit[0]:
-            lower = value.lower()
+        if event.tag not in (None, '!', f'tag:yaml.org,2002:{kind}'):
+            raise _error('Tags not supported', value)
 
-            if lower in ("null", "~", ""):
-                return None
+    def convert_scalar(self, event):
+        """
+        Convert a scalar the way the normal YAML loader does.
+        """
+        tag = event.tag
 
-            if lower in ("true", "on", "yes"):
-                return True
+        if tag is None or tag == '!':
+            tag = self.loader.resolve(
+                yaml.ScalarNode, event.value, event.implicit)
 
-            if lower in ("false", "off", "no"):
-                return False
+        if tag == 'tag:yaml.org,2002:merge':
+            value = ValueWithTrace.from_yaml_event(None, self.src, event)
+            raise _error('Merge keys not supported', value)
 
-            try:
-                return int(value)
-            except ValueError:
-                pass
+        if tag == 'tag:yaml.org,2002:value':
+            tag = 'tag:yaml.org,2002:str'
 
-            try:
-                return float(value)
-            except ValueError:
-                pass
+        node = yaml.ScalarNode(
+            tag, event.value, event.start_mark, event.end_mark)
 
-        return value
+        return self.loader.construct_object(node)
-- 
2.43.0


From 152f968eb5fd2fc00b21aed6a2a70e5263ce03b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:53 +0000
Subject: [PATCH 24/24] fix: validation: check all subcommands and refuse
 malformed definitions with a message

---
 crazy_complete/scheme_validator.py | 20 ++++++++++++--------
 crazy_complete/str_utils.py        |  2 ++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index 6f55119..117a08b 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -246,11 +246,13 @@ def _check_command_arg(ctxt, arguments):
         raise _error(msg, ctxt.positional)
 
     def command_is_previous_to_command_arg(positional):
-        return (
-            _has_set(positional, 'complete') and
-            positional.value['complete'].value[0] == 'command' and
-            positional.value['number'].value + 1 == ctxt.positional.value['number'].value
-        )
+        try:
+            return (
+                positional.value['complete'].value[0] == 'command' and
+                positional.value['number'].value + 1 == ctxt.positional.value['number'].value
+            )
+        except (AttributeError, IndexError, KeyError, TypeError):
+            return False # `positional` has not been validated yet
 
     positionals = ctxt.definition.value['positionals'].value
     if not any(filter(command_is_previous_to_command_arg, positionals)):
@@ -806,7 +808,7 @@ def _check_option(ctxt, option):
         try:
             option_strings = option.value['option_strings'].value
             option_strings = '|'.join([o.value for o in option_strings])
-        except (KeyError, TypeError):
+        except (AttributeError, KeyError, TypeError):
             raise e from None
 
         msg = '%s: %s' % (option_strings, e.message)
@@ -857,7 +859,7 @@ def _check_positional(ctxt, positional):
             metavar_ = positional.value['metavar'].value
             assert isinstance(metavar_, str)
             metavar = metavar_
-        except (AssertionError, KeyError):
+        except (AssertionError, KeyError, TypeError):
             pass
 
         msg = '%s: %s' % (metavar, e.message)
@@ -936,6 +938,8 @@ class DefinitionTree:
         if not _has_set(definition, 'prog'):
             raise _error('%s: %s' % (m.missing_arg(), 'prog'), definition)
 
+        _check_type(definition.value['prog'], (str,), 'prog')
+
         try:
             validate_prog(definition.value['prog'].value)
         except CrazyError as e:
@@ -976,7 +980,7 @@ class DefinitionTree:
         '''Call `callback` on each node in the tree.'''
         callback(self)
         for subcommand in self.subcommands.values():
-            callback(subcommand)
+            subcommand.visit(callback)
 
     def get_all(self):
         '''Return a list of all nodes.'''
diff --git a/crazy_complete/str_utils.py b/crazy_complete/str_utils.py
index 39bf4dc..b27fee9 100644
--- a/crazy_complete/str_utils.py
+++ b/crazy_complete/str_utils.py
@@ -38,6 +38,8 @@ def is_valid_extended_regex(string):
             check=False)
 
         return r.returncode != 2
+    except ValueError: # The string contains a null byte
+        return False
     except (FileNotFoundError, PermissionError, subprocess.TimeoutExpired):
         return True
 
-- 
2.43.0

