"""The properties, written out as properties.jsonl and MANIFEST.json.

Run `python3 tools/properties.py` in /verif after a change.
"""

import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, observe=(),
         note='', state=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files.split(),
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'observe_at': list(observe), 'hook_needed': None},
        'note': note})


RD = 'xylem/sources/rules_dict.py'
RP = 'xylem/specs/plugins/rules.py'

prop('C01', 'Rules shorthand expands to one canonical, stable form',
     """Every well-formed rules file, whatever shorthand it uses (a plain
     package name, a list, null, a dict with options, versions or an
     installer rule directly below the OS), expands to the one rules dict
     that its notation stands for, with every name and option kept.
     Expanding an expanded rules dict changes nothing, and an empty rules
     file is an empty rules dict.""",
     'inputs', """all rules dicts within the bounds: every combination of
     notations for each entry and arbitrary names for keys, OSs, versions,
     installers, packages and options""",
     """Tests check a handful of literal files; which notation applies
     depends on the combination of value types and names (version-like,
     keyword, default installer) at several nested levels.""",
     RP + ' ' + RD,
     [('expansion', RP + ' expand_rules, expand_os_dict, '
       'expand_version_dict, expand_installer_dict, expand_installer_rule')],
     ['expand_rules(data, default_installer...)'])

prop('C02', 'Malformed rules are rejected, well-formed rules accepted',
     """Rules data with a wrong type, an invalid or reserved name or a
     forbidden entry at any level (such as version-specific rules or the
     default installer below any_os) is rejected as a whole with an error
     about the rules, never partially loaded and never with an unrelated
     error; every well-formed rules file is accepted.  The default installer
     entry is accepted exactly where it is allowed.""",
     'inputs', """all well-formed rules dicts within the bounds, with no or
     exactly one malformed place of any of the kinds, arbitrary names""",
     """Tests reject a few literal examples; the guarantee is about every
     nesting level and every kind of wrong value, and that nothing
     well-formed is rejected.""",
     RP + ' ' + RD,
     [('verification', RD + ' verify_rules_dict and helpers'),
      ('loading', RP + ' RulesSpec.load_data, verify_data')],
     ['Spec.load_data', 'verify_rules_dict'])

prop('C03', 'Compacting rules keeps their meaning',
     """Expanding the compacted form of a rules dict gives a rules dict that
     provides the same rules for every key, OS and version, for every OS with
     a known or unknown default installer.""",
     'inputs', 'all expanded rules dicts within the bounds, arbitrary names, '
     'every default installer',
     """The compactor drops and folds levels depending on several entries
     at once; tests round-trip a few files.""",
     RP, [('compaction', RP + ' compact_rules, compact_installer_dict, '
           'compact_installer_rule')], ['compact_rules / expand_rules'])

prop('C04', 'Rule lookup precedence within one source',
     """What a rules dict provides for a key on an OS is, per installer, the
     rule for the specific OS version, else the one for any version of that
     OS, else the one for any OS.  Rules for the default installer count as
     rules for the default installer of the current OS, entries of other
     OSs, versions and keys have no influence, and the rules dict is not
     modified.""",
     'inputs', 'all rules dicts within the bounds and every query (key, OS, '
     'version, default installer), arbitrary and possibly coinciding names',
     """Precedence must hold for every combination of present levels and of
     coinciding names; tests use one example per level.""",
     RD, [('lookup', RD + ' lookup_rules')], ['lookup_rules'])

prop('C05', 'Earlier sources override later ones per installer',
     """Looking up a key among several sources yields, per installer, the
     rule of the first source (in source order) that has any rule for this
     key and installer on the OS, even if later sources are more specific
     about the OS version.  Repeated lookups agree, whichever lookups
     happened in between.""",
     'inputs histories', 'all databases within the bounds: two or three '
     'sources with any subset of entries, any query, arbitrary names',
     """Tests look up keys in one or two fixed sources; precedence depends
     on the combination of specificity and source order.""",
     'xylem/sources/database.py ' + RD,
     [('merging lookup', 'xylem/sources/database.py RulesDatabase.lookup')],
     ['RulesDatabase.lookup'])

prop('C06', 'Merging rules dicts agrees with looking up one after another',
     """Merging rules dicts for the known OSs and their default installers
     gives a rules dict that answers every lookup on a known OS like asking
     the merged ones in order of their priority, per installer.  It names the
     default installer explicitly in place of the default installer entry,
     leaves out unknown OSs, and the merged-in rules dicts are not
     modified.""",
     'inputs', 'all pairs and triples of rules dicts within the bounds, every '
     'query, arbitrary package names',
     """The merge has to move default-installer and any-version rules to
     where they keep their meaning; tests merge a few literals.""",
     RD, [('merge', RD + ' merge_rules and helpers')], ['merge_rules', 'lookup_rules'])

prop('C09', 'Identifiers consist of allowed characters and are not reserved',
     """A key, OS name, OS version or installer name is accepted exactly if
     it is a nonempty string of the characters allowed for its kind (letters,
     digits and the listed punctuation) that is not a reserved word, except
     reserved words explicitly permitted at that place.""",
     'inputs', 'all strings up to the length bound (every character '
     'symbolic), all reserved words, values that are no strings',
     """A character-level condition over all strings; tests try a few.""",
     RD, [('identifier checks', RD + ' verify_*_name and the patterns')],
     ['verify_rules_dict_identifier and friends'])

prop('C10', 'Key listing lists exactly the keys that have rules',
     """The keys listed for an OS are exactly the keys for which a lookup on
     that OS finds at least one rule, each of them once.""",
     'inputs', 'all databases within the bounds, any query',
     """Listing and looking up are separate code paths that must agree on
     every database.""",
     'xylem/sources/database.py xylem/sources/rules_dict.py '
     'xylem/specs/plugins/rules.py',
     [('key listing', 'xylem/sources/database.py RulesDatabase.keys')],
     ['RulesDatabase.keys', 'RulesDatabase.lookup'])

prop('C11', 'Source files are read in alphabetical order, hidden ones skipped',
     """The sources are those described in the files of the sources directory
     that end in .yaml and do not start with a dot, files in alphabetical
     order and descriptions in the order of the file, independent of the
     order in which the directory lists its files.  The default sources are
     used exactly if there is no sources directory.""",
     'inputs configurations', 'all sets of up to three file names within the '
     'bounds, created in any order',
     """The directory order is up to the file system; tests see one.""",
     'xylem/sources/impl.py xylem/sources/database.py',
     [('source files', 'xylem/sources/impl.py load_sources_from_path')],
     ['RulesDatabase.load_from_source'])

prop('C12', 'Malformed source descriptions are rejected, valid ones loaded',
     """A sources file in which any entry is not a one-entry mapping from a
     known spec name to valid arguments, or that repeats a source, is
     rejected with an error saying so; every valid one gives exactly the
     described sources.  A file that is no valid YAML is skipped without
     affecting the other files.""",
     'inputs configurations', 'all descriptions within the bounds, one '
     'malformed entry of any kind at any position',
     """Tests load one valid file.""",
     'xylem/sources/impl.py xylem/sources/database.py xylem/specs/impl.py',
     [('verification', 'xylem/sources/impl.py '
       'verify_source_description_list')], ['RulesDatabase(...)'])

prop('C13', 'Cached sources are equal to the loaded ones, damaged ones refused',
     """Loading the sources from the cache gives the same rules, lookups and
     listed keys as loading them from their origin did, without network.  A
     missing or damaged cache file is never taken for rules: it is an error,
     or with error tolerance that source is empty and the other sources are
     unaffected, and removing the cache of one source affects no other.  A
     cache is outdated if it is missing or belongs to another spec, else if
     the spec says so about the cached data.""",
     'inputs fault_sequences', 'arbitrary names in one or two sources, any of '
     'the listed kinds of damage to any of the files',
     """Tests never read a cache back, let alone a damaged one.""",
     'xylem/sources/database.py',
     [('cache', 'xylem/sources/database.py Source.load_from_cache, '
       'save_to_cache, clear_cache')], ['RulesDatabase.load_from_cache'])

prop('C14', 'Updating isolates failing sources and keeps their old cache',
     """If some sources fail to download, parse, validate or be saved during
     an update, all other sources are still updated, and the caches of the
     failing ones are left as they were; a database that was loaded before
     goes on using what it last loaded from them.  A database set up to
     raise errors raises for every failing source.""",
     'fault_sequences histories', 'every combination of up to three sources '
     'being fine or failing in any of the listed ways, with and without '
     'caches from before',
     """Needs every combination of faults with the prior cache state; tests
     run no update against failing sources.""",
     'xylem/update.py xylem/sources/database.py',
     [('update', 'xylem/sources/database.py RulesDatabase.update'),
      ('update command', 'xylem/update.py update')], ['update(config=...)'])

prop('C15', 'A dry-run update changes nothing on disk',
     """An update in dry-run mode neither creates, changes nor removes any
     file or directory, whether or not there are caches and whether or not
     sources fail, and it succeeds.""",
     'inputs fault_sequences configurations',
     'all combinations of up to two sources, prior cache states and failures',
     """Tests observe output, not the file system operations of every
     case.""",
     'xylem/update.py xylem/sources/database.py',
     [('dry run', 'xylem/update.py update(dry_run=True)')], ['file system'])

prop('C16', 'Downloads retry transient failures boundedly and decode text',
     """A download is repeated only after a transient failure (HTTP 503 or a
     timeout, also while reading), at most as often as the retry count says,
     after waiting the configured time once between attempts; it returns the
     downloaded text or raises the documented download error.  The text is
     decoded as the response declares, UTF-8 by default.""",
     'fault_sequences inputs', 'every sequence of attempt outcomes up to the '
     'bound, symbolic retry count, waiting time and HTTP status',
     """Tests have no network faults.""",
     'xylem/load_url.py', [('retry loop', 'xylem/load_url.py load_url')],
     ['load_url'])

prop('C41', 'An interrupted update leaves every cache old, new, or absent',
     """If an update dies at any point of its file operations, each source's
     cache afterwards is complete, holding either its previous or its new
     rules (or is still absent if there was none), and the update can be
     repeated successfully.""",
     'crash_points histories', 'death before any file system operation '
     '(every write split in two), up to three sources, with and without '
     'caches from before',
     """Tests never crash the process; the guarantee is about every point.""",
     'xylem/sources/database.py',
     [('atomic replace', 'xylem/sources/database.py Source.save_to_cache')],
     ['cache directory after the crash'])

OI = 'xylem/os_support/impl.py'
OP = 'xylem/os_support/plugins.py'
IC = 'xylem/installers/impl.py'
IB = 'xylem/installers/installer_base.py'
PM = 'xylem/installers/package_manager_installer.py'
IP = 'xylem/installers/plugins/'

prop('C24', 'The most specific accepting operating system is detected',
     """The current OS is one of the enabled OS plugins that accept the
     system and from which no other accepting one is derived, whatever order
     the plugins are loaded in; if none accepts it, it is reported as
     unsupported.  The answer does not change later on, and every plugin is
     found by its OS name.""",
     'inputs configurations', 'all sets of plugins within the bounds in '
     'every order, every combination of accepting plugins',
     """Tests run on one machine with the shipped plugins in one order.""",
     OI + ' ' + OP, [('detection', OI + ' OSSupport.detect_os, current_os')],
     ['OSSupport.current_os'])

prop('C25', 'An OS override selects exactly the requested OS and version',
     """With an override, the context uses the named OS with the requested
     version, or the detected version if none is requested, and behaves like
     that OS in everything else (name, default and core installers, known
     versions, features).  An unknown OS, an unknown version or an
     undetectable version is refused as such, and without override the
     detected OS is used.  An OS has the options set last, completed by
     defaults, and invalid ones are refused.""",
     'inputs configurations', 'arbitrary OS name and version requested, '
     'arbitrary known versions, version detection failing or not',
     """Tests override with one valid combination.""",
     OI + ' ' + IC + ' xylem/os_support/os_base.py', [('override', OI + ' OSSupport.override_os'),
                     ('context', IC + ' InstallerContext')],
     ['InstallerContext.get_os_tuple'])

prop('C26', 'OS versions are ordered as listed and mapped to parent OSs',
     """One version is less than another exactly if it comes earlier in the
     list of known versions of the OS; comparing an unknown version is an
     error.  The shipped OSs list no version twice, name the OSs they are
     derived from in order of specificity, map their version only to the
     parents that share it, and use their default installer as a core
     installer.""",
     'inputs', 'all version lists within the bounds, arbitrary versions; all '
     'shipped OSs with an arbitrary version',
     """Tests compare a few versions of one OS.""",
     'xylem/os_support/os_base.py ' + OP, [('order', 'xylem/os_support/os_base.py version_order_from_list'),
     ('names', OP)],
     ['OSBase.version_less_fn', 'OSBase.get_all_tuples'])

prop('C27', 'Core and additional installers follow config, OS and plugins',
     """The core installers are those configured, else those of the OS, in
     that order, without unknown ones; the additional installers are the
     other loaded installers that ask to be used on this OS, and there are
     none if they are disabled.""",
     'inputs configurations', 'all lists of core installers within the '
     'bounds, configured or of the OS, with unknown and repeated names, and '
     'every combination of additional installers',
     """The outcome depends on the combination of configuration, OS and
     plugins; tests set up one context.""",
     IC, [('setup', IC + ' InstallerContext.setup_installers')],
     ['InstallerContext.core_installers, additional_installers'])

prop('C28', 'A key is resolved with the right installer or reported',
     """A key is resolved with the installer configured for it, else with the
     first core installer that has a rule, else with one of the enabled
     additional installers that has a rule, and only with rules for that
     installer; with none of them it is an error for that key.  Each
     requested key, and with all keys requested each key of the database, is
     accounted for exactly once, resolved or as an error, in the order of the
     request, and errors of one key do not affect others.""",
     'inputs configurations', 'every combination of installers with a rule, '
     'core and additional installers and the install-from setting within '
     'the bounds; every list of requested keys',
     """The choice depends on several settings at once; tests resolve a few
     keys with one setting.""",
     'xylem/resolve.py', [('choice', 'xylem/resolve.py resolve')],
     ['resolve'])

prop('C29', 'Installer rules resolve to one item per package, else refused',
     """A valid installer rule resolves to exactly one item for each package
     it lists, in order, each carrying the options of that rule and nothing
     else; a rule whose packages or dependencies are no list of names is
     refused as an invalid rule.  Resolved items are equal, and count as
     duplicates, exactly if package and options are equal.""",
     'inputs', 'all rules within the bounds for each shipped installer and '
     'one with an option of its own, arbitrary names, every kind of wrong '
     'value', """Tests resolve a few literal rules.""",
     IB + ' ' + PM + ' ' + IP,
     [('resolution', IB + ' InstallerBase.resolve; ' + PM)],
     ['Installer.resolve', 'Installer.get_depends'])

prop('C30', 'Installers get exactly their own options from the config',
     """Each installer has the value configured for it for each of its
     options and else its default, never one configured for another
     installer; options it does not have are ignored, and an invalid value
     is refused.""",
     'inputs configurations', 'for each shipped installer every configured '
     'value within the bounds, valid, invalid or absent',
     """Tests set one option of one installer.""",
     IC + ' ' + IB, [('options', IC + ' setup of installers'),
                     ('description', IB + ' options_description')],
     ['Installer.options'])

prop('C31', 'Commands name every package and run with the right privileges',
     """The commands of each shipped installer run its package manager and
     name every requested package.  They are run with elevated privileges
     exactly if the installer is to be used as root and the user is not root,
     never elevated twice, and otherwise unchanged.""",
     'inputs configurations', 'arbitrary package names and user ids, every '
     'installer, every setting; arbitrary commands within the bounds',
     """Tests compose a few commands as one user.""",
     IB + ' ' + PM + ' ' + IP,
     [('elevation', IB + ' elevate_privileges'), ('commands', IP)],
     ['Installer.get_install_commands'])

prop('C32', 'Exactly the missing packages are determined to be uninstalled',
     """The uninstalled packages of pip and of the fake installer are exactly
     those of the requested ones that are not installed, in their order, and
     if nothing is requested there are none.  For pip it does not matter
     where a package was installed from, nor the case and separators
     (hyphen, underscore, dot) of its name.""",
     'inputs', 'all short package names (symbolic characters), any subset '
     'of them installed', """Tests use a few fixed names; names that are
     parts of each other matter.""",
     IP + 'pip.py ' + IP + 'fake.py',
     [('detection', IP + ' filter_uninstalled')],
     ['Installer.filter_uninstalled'])

prop('C33', 'Prerequisites are checked before installing, fixed only if asked',
     """The prerequisites of an installer are checked before any of its
     packages is installed, and an unsatisfied one prevents installation.
     A missing or outdated package manager is installed or updated only if
     fixing is requested, and reported as unsatisfied prerequisite if this is
     not possible; pretending to fix executes nothing.""",
     'inputs configurations', 'every combination of a package manager '
     'present, installable, outdated or updatable, of the fixing mode, and '
     'of failing prerequisites', """Tests never run with a missing or
     outdated package manager.""",
     PM + ' xylem/install.py ' + IB,
     [('general prerequisites', PM + ' check_general_prerequisites'),
      ('order', 'xylem/install.py install')], ['commands executed'])

prop('C34', 'Exactly the valid enabled plugins are loaded',
     """The loaded plugins are those with a valid definition and a valid name
     that are not disabled, each name once, whatever other plugins there are
     and in whatever order they come; all others are ignored without an
     error.""",
     'inputs configurations', 'all lists of plugins within the bounds, each '
     'fine, disabled or wrong in any of the listed ways; arbitrary names',
     """Tests load the shipped plugins.""",
     'xylem/plugin_utils.py ' + IC + ' ' + OI,
     [('loading', 'xylem/plugin_utils.py load_plugins')],
     ['load_installer_plugins', 'load_os_plugins'])

prop('C35', 'Installation runs the right commands in order and reports all',
     """Exactly the commands for the resolved packages not yet installed (for
     all of them when reinstalling) are run, each once and in the order of
     the keys.  Every failing command, installed package still missing
     afterwards, unresolved key and failing installer is reported, and
     nothing else.  Without continuing on errors a failing command is the
     last thing run, nothing is run for another installer after an error, and
     nothing at all if a key is unresolved.""",
     'fault_sequences inputs', 'all sets of keys within the bounds, every '
     'package installed or not, every exit code of every command, every '
     'failing installer operation', """Tests run no real installation with
     failures; the combination of failures and states is what matters.""",
     'xylem/install.py xylem/resolve.py ' + IB,
     [('execution', 'xylem/install.py install')],
     ['commands executed', 'errors returned by install'])

prop('C36', 'A dry-run installation executes nothing and changes nothing',
     """A dry run of an installation executes no command, creates and changes
     no file and fixes no prerequisite, with any combination of the other
     options, and still reports the keys that cannot be resolved.""",
     'inputs configurations', 'every combination of options, keys, '
     'installed packages and unsatisfied prerequisites within the bounds',
     """Tests do not observe what a dry run executes under each option.""",
     'xylem/install.py ' + PM + ' ' + IP + 'fake.py',
     [('simulation', 'xylem/install.py install(simulate=True)')],
     ['commands executed', 'file system'])

CU = 'xylem/config_utils.py'
CF = 'xylem/config.py'

prop('C17', 'Configuration layers combine item by item in the fixed order',
     """The effective value of every configuration item is that of the most
     important layer setting it: command line, then user file, then system
     file, then default; unset and null items do not hide less important
     layers, mapping items that merge are combined key by key in that order,
     and the items of a group are layered one by one.  A private directory
     replaces user and system files, and disabling the user configuration
     leaves the system file only; what is given on the command line wins over
     the environment.  The files count as they are when the configuration is
     determined.""",
     'inputs configurations', 'every item, set or not in every combination '
     'of layers to arbitrary values; all combinations of files present and '
     'of arguments and environment choosing the files read',
     """Tests try few combinations of items and layers; the guarantee is about
     every combination of set, unset and null over all layers.""",
     CU + ' ' + CF, [
         ('merging', CU + ' merge_configs, ConfigType.merge, '
          'MergingDict.merge'),
         ('choice of the files', CU + ' load_config, '
          'handle_global_config_arguments')],
     ['get_config() after handle_config_arguments(args)'])

prop('C18', 'Configured values have the declared type and exact content',
     """A value from a configuration file is accepted exactly if it has the
     declared type at every level, and is then used unchanged; otherwise it
     is refused with a configuration error.  Command line values mean what
     the documented notation says: strings as they are, lists and dicts with
     or without outer brackets, several occurrences concatenated or combined,
     and a key given twice refused.  Paths are made absolute, with ~ expanded
     and . and .. removed.""",
     'inputs', 'all YAML structures, argument notations and paths within the '
     'bounds, arbitrary names', """Tests parse a few literal values; the
     combination of declared type, notation and nesting matters.""",
     CU, [('types', CU + ' ConfigType and subclasses: from_yaml, '
           'from_command_line, verify'), ('paths', CU + ' expand_input_path')],
     ['ConfigType.from_yaml', 'ConfigType.from_command_line',
      'ConfigType.verify'])

prop('C19', 'A configuration is complete, independent, or refused as a whole',
     """Every configuration created from files, a dict or defaults has exactly
     the described items, with the default value for each item not set;
     invalid data (a wrong type of an item, a group or the whole file,
     non-text keys, unreadable or undecodable files) is refused with a
     configuration error and nothing else, and data that is valid is not
     refused.  Changing or merging one configuration never changes another
     one or the defaults.""",
     'inputs histories', 'all dicts with one item or group of any right or '
     'wrong value, the given malformed and well-formed files in either '
     'place, two or three configurations created and changed one after the '
     'other', """Tests use one configuration per process and valid data.""",
     CU + ' ' + CF, [('creation', CU + ' config_from_parsed_yaml, '
                      'config_from_defaults, load_config_file_yaml; ' + CF +
                      ' ensure_config')],
     ['ensure_config', 'get_default_config', 'get_config'])

prop('C20', 'Cache and sources directories are where the options put them',
     """The cache and sources directories are the explicitly given ones, else
     those of the private directory, else those of the user if user sources
     are enabled, else the system-wide ones below the prefix; each of these
     is taken from the command line before the environment or files, always
     as an absolute path.  Used from Python, without command line, they are
     the given ones, else the default system-wide ones.""",
     'configurations', 'every combination of the options given on the command '
     'line, in the environment, in files or not at all',
     """Tests never resolve these directories; the precedence is about
     combinations of six independent settings.""",
     CF + ' ' + CU, [('location', CF + ' process_config'),
                     ('global arguments', CU +
                      ' handle_global_config_arguments')],
     ['config.cache_dir', 'config.sources_dir'])

prop('C21', 'The OS override option is split into OS, version and features',
     """An OS override is split at the first & and then at the first : into
     name, version and comma-separated features, each without surrounding
     whitespace, and absent parts are absent; given features (also none)
     replace the features set anywhere else, and otherwise those are kept,
     whichever layer the override comes from.""",
     'inputs configurations', 'all texts over separators, space, a letter '
     'and a digit up to the bound; all combinations of override and features '
     'over the layers', """Tests parse three literal overrides.""",
     CF, [('parsing', CF + ' parse_os_override, process_os_override')],
     ['parse_os_override', 'config.os_override', 'config.os_options'])

prop('C22', 'Conflicting configuration items cannot be described',
     """Describing an item whose name, group or command line argument
     conflicts with an already described item or group is refused with a
     description error and leaves the description as it was; every other
     item is accepted, and the description then consists of exactly the
     accepted items, arguments and groups.""",
     'histories inputs', 'all sequences of up to the bound of items with '
     'equal or different names, groups and arguments',
     """The shipped description has no conflicts, so tests cannot see what
     happens to them.""",
     CU, [('description', CU + ' ConfigDescription.add, ConfigItem')],
     ['ConfigDescription.add', 'config_from_defaults'])

prop('C23', 'The printed configuration is the effective one',
     """With --print-config the effective configuration, with the values of
     all items after combining all layers, is printed as YAML that reads
     back as these values, and the program then ends successfully without
     doing anything else; without it nothing is printed.""",
     'configurations inputs', 'every item set to an arbitrary value on the '
     'command line or in a file', """Tests do not print configurations.""",
     CU + ' ' + CF, [('printing', CU +
                      ' handle_global_config_arguments_post')],
     ['standard output', 'exit status'])

prop('C37', 'The exit status and messages tell whether a command succeeded',
     """The xylem program exits with status 0 exactly if the requested
     operation succeeded for every key; otherwise the status is nonzero and
     the errors, with all their causes, are printed, without traceback
     unless debugging or for internal errors.  Options have their
     effect through the program as through the API, no question is answered
     in place of the user, and an invalid invocation or configuration is
     refused before anything is changed.""",
     'inputs configurations faults', """all combinations of the options and of
     the outcomes of the requested keys within the bounds; any error or
     interruption of a command""",
     """Tests do not run the program; scripts rely on the status in every
     combination of outcomes.""",
     'xylem/commands/main.py xylem/commands/install.py '
     'xylem/commands/resolve.py xylem/arguments.py',
     [('status', 'xylem/commands/*.py main'),
      ('errors', 'xylem/commands/main.py main')],
     ['exit status', 'standard error', 'commands executed'])

prop('C38', 'Printed resolutions and rules are the actual ones',
     """xylem resolve prints, for each requested key in order that can be
     resolved, the key, the installer unless it is the default one (or it is
     requested to show it) and all its packages; xylem lookup prints for each
     key rules that read back as those the sources provide on the current
     OS.  Keys without rules are reported, not printed with wrong ones.""",
     'inputs configurations', """all rules within the bounds, every
     combination of the options""",
     """Tests do not run the commands; other programs read this output.""",
     'xylem/commands/resolve.py xylem/commands/lookup.py xylem/lookup.py',
     [('printing', 'xylem/commands/resolve.py main; '
       'xylem/commands/lookup.py main')], ['standard output'])

prop('C42', 'Compacting a rules file keeps its rules or leaves it alone',
     """The command that compacts a rules file prints or writes a rules file
     that provides the same rules for every key, OS and version; without the
     option to write it changes no file, and a missing, unparsable or
     malformed file is an error, with nothing printed and the file left
     as it was.""",
     'inputs', 'all rules files within the bounds, malformed ones; with and '
     'without writing', """Tests do not run the command.""",
     'xylem/commands/_compact_rules_file.py ' + RP,
     [('compaction', 'xylem/commands/_compact_rules_file.py main')],
     ['standard output', 'content of the file'])

prop('C07', 'YAML that xylem writes reads back; reading YAML is safe',
     """Whatever structure of lists, dicts, texts, numbers, booleans and
     nulls is written as YAML (rules, resolutions, configurations) reads back
     as the same structure with the same types, written out in full even
     where parts occur twice, and is not modified by writing.  Reading YAML
     constructs only such plain structures: unknown or object-constructing
     tags and broken syntax are YAML errors and never execute anything.""",
     'inputs', """all structures up to the bounded depth with arbitrary names
     and texts that resemble other YAML syntax; all tags listed""",
     """Representers interact: nulls, config dicts and inline lists are
     customised and differ by nesting; tests load a few files.""",
     'xylem/yaml_utils.py',
     [('writing', 'xylem/yaml_utils.py dump_yaml'),
      ('reading', 'xylem/yaml_utils.py load_yaml')],
     ['load_yaml(dump_yaml(x))'],
     note='The top-level value null is left out.')

prop('C39', 'Messages and commands are printed unchanged to the right stream',
     """Text given to the printing functions (info, warning, error, debug and
     verbose info), as text or UTF-8 bytes, appears unchanged up to colors,
     including characters with a meaning in markup or formatting: info on
     standard output, the others on standard error, or in the file passed;
     debug and verbose output only if enabled; colors are reset at the end
     and missing altogether if disabled; error with exit ends the program
     unsuccessfully.  Install commands are shown exactly as they are executed or, when
     simulating, would be.""",
     'inputs configurations', """all texts up to the bounded length over all
     special characters; every combination of settings""",
     """Tests print a few literals; which characters break printing depends
     on layers of formatting (templates, colors, encoding).""",
     'xylem/log_utils.py xylem/terminal_color.py xylem/text_utils.py '
     'xylem/install.py',
     [('printing', 'xylem/log_utils.py info, warning, error, debug, info_v'),
      ('commands', 'xylem/install.py install_resolutions')],
     ['standard output', 'standard error'])

prop('C40', 'Error reports name every cause, in order',
     """A chained error keeps its type, message and cause, and its report
     lists all errors of the chain with type and message, deepest cause
     first, each linked to the next; or just the last error if the chain is
     not wanted.  Tracebacks are included only if asked for, up to the limit
     asked for.  An error
     nobody catches is reported like that on standard error.""",
     'inputs', """all chains up to the bounded length of any types, arbitrary
     messages, raised or returned""",
     """Tests check one chain; order, links and omissions depend on the
     length of the chain and the options.""",
     'xylem/exception.py',
     [('chaining', 'xylem/exception.py raise_from, chain_exception'),
      ('report', 'xylem/exception.py exc_to_str')], ['exc_to_str'])

prop('C43', 'Helpers restore the process state and report faithfully',
     """Changing or creating a directory and redirecting the output for a
     block always restores the working directory and the streams afterwards,
     however nested and whether or not the block fails, removes temporary
     directories and passes on the error.  Removing duplicates keeps the
     first occurrence of each item in order; indenting shifts each line by
     the width; reading a program's output gives exactly its output, errors
     and exit code; and a program counts as installed exactly if it can be
     started.""",
     'inputs faults', """all nestings up to the bound, with an error or none;
     all lists, texts, outputs and exit codes within the bounds""",
     """Tests use each helper once, without failures inside.""",
     'xylem/util.py',
     [('context managers', 'xylem/util.py change_directory, '
       'temporary_directory, redirected_stdio'),
      ('helpers', 'xylem/util.py remove_duplicates, indent, read_stdout, '
       'read_stdout_err, is_program_installed')],
     ['working directory', 'sys.stdout', 'return values'])

prop('C44', 'Shipped OSs and detectors recognise exactly their platform',
     """From what the platform reports, the current OS is Ubuntu, Debian or
     Xubuntu with its codename, or OS X with the codename of its version,
     and nothing else; platforms that are none of these are unsupported and
     versions of OS X without known codename are unsupported versions.  The
     other detectors recognise exactly their own release file or system name
     and report the version and codename in it; each of the 14 known systems
     is recognised as itself from what such a machine has in the usual
     places.  Of several detectors of one
     name the one added last is used, an instance's own detectors affect no
     other instance, and ROS_OS_OVERRIDE takes precedence over all.""",
     'inputs', """all distributions, versions and codenames reported; every
     detector with the release file of every other system""",
     """Tests run on one platform only.""",
     'xylem/os_support/os_detect.py xylem/os_support/plugins.py',
     [('detectors', 'xylem/os_support/os_detect.py'),
      ('plugins', 'xylem/os_support/plugins.py _OSDetecorBase')],
     ['OSSupport.current_os', 'OS.get_tuple'],
     note='Python 3.8 and later report no distribution at all.')

prop('C45', 'The Python interface uses the configuration it is given',
     """update, lookup, resolve and install called from Python use the
     configuration, sources context, installer context and database handed
     to them, each for its part: rules come from the given database, else
     from the sources of the given sources context, else of the given
     configuration, else of the global one; installers from the given
     installer context, else from the given or global configuration, whose
     install_from holds in any case.  A plain dict is completed by defaults.
     Anything else in place of them is refused.""",
     'inputs configurations', """every combination of what is given, with
     arbitrary package names""",
     """Tests call these functions with one combination, if at all.""",
     'xylem/resolve.py xylem/install.py xylem/lookup.py xylem/update.py '
     'xylem/config.py xylem/sources/impl.py xylem/installers/impl.py',
     [('helper', 'xylem/config.py ensure_config'),
      ('helper', 'xylem/sources/impl.py ensure_sources_context')],
     ['resolve(["key"], config=c)', 'install(["key"], config={...})'])

prop('C46', 'Updates and lookups at the same time keep and see whole caches',
     """Whatever updates run at the same time on one cache directory, and in
     whatever way their steps interleave: a lookup meanwhile finds the rules
     a source had before or those of an update, whole, and no update or
     lookup fails because of another process.  Afterwards the cache of every
     source holds the rules stored by one of the updates, even if one of
     them was killed, and later updates work as usual.""",
     'schedules crash_points inputs', """all interleavings of the processes'
     downloads, file system changes and reads up to the bound on switches,
     with any of them killed, arbitrary rules""",
     """Tests run one update in one process.""",
     'xylem/sources/database.py xylem/sources/impl.py xylem/update.py',
     [('temporary file', 'xylem/sources/database.py _write_cache'),
      ('cache directory', 'xylem/sources/impl.py ensure_cache_dir')],
     ['cache files', 'update', 'RulesDatabase.load_from_cache'])

prop('C47', 'The help shows all commands and options with their explanation',
     """The help of xylem lists the public commands, and no others; the help of
     a command shows its description, its own arguments, those common to all
     commands and the configuration items that are options, also those that
     plugins declare, and no items that are no options.  For each such item
     the help shows the argument and its placeholder, the explanation, the
     type, the default if there is one, and the name in configuration files
     if it differs from the argument or is in a group, and how values are
     written for the types of all items that are options or not, and for no
     other types.  Texts are shown in
     full, wrapped to the width, broken into paragraphs and lines where the
     text asks for it (three or more, and two line breaks), and paragraphs
     marked with R| as they are laid out.""",
     'inputs', """all texts of letters, spaces and line breaks up to the
     bound; items of all kinds; sets of commands""",
     """No test looks at the help.""",
     'xylem/config_utils.py xylem/commands/main.py xylem/arguments.py',
     [('layout', 'xylem/config_utils.py ConfigHelpFormatter._wrap_paragraphs'),
      ('items', 'xylem/config_utils.py ConfigItem.help_string'),
      ('commands', 'xylem/commands/main.py create_subparsers')],
     ['ConfigHelpFormatter', 'ConfigItem.help_string',
      'ConfigDescription.add_arguments', 'create_subparsers'])

prop('C48', 'Commands of plugins and xylem-update work like shipped commands',
     """Every command declared by a plugin that can be loaded is offered; when
     invoked, it alone is run, with its own arguments, the common options and
     the configuration items it declares, whether these are given on the
     command line, in configuration files or not at all.  A command that
     cannot be loaded or is no definition is reported and not run, and does
     not affect other commands; nor do items that only another command
     declares.  The program xylem-update does what the command update of
     xylem does: same effects, same options, same reports of failures.""",
     'inputs histories faults', """all sets of commands up to the bound, each
     valid, failing to load or of wrong type, with arbitrary items in any
     configuration layer""",
     """Tests only run shipped commands, one at a time.""",
     'xylem/commands/main.py xylem/config_utils.py xylem/commands/update.py',
     [('command definitions', 'xylem/commands/main.py create_subparsers'),
      ('items of commands', 'xylem/commands/main.py create_command_parser'),
      ('items not given', 'xylem/config_utils.py config_from_args')],
     ['create_subparsers', 'load_command_definition', 'create_command_parser',
      'command_handle_args', 'config_from_args', 'update.main'])

#MORE

LEVEL_NOTE = (
    "Bounded: all values of the symbolic inputs within the bounds printed in "
    "the evidence file, over the real code transformed at load time; every "
    "reported counterexample is replayed on the untransformed code, and "
    "sampled explored paths are run natively and compared. Trusts z3, the "
    "symbolic models of builtins in symx/ and the environment stubs in "
    "harness/env.py.")


def covered():
    ids = set()
    for f in glob.glob(os.path.join(ROOT, 'harness', 'h_*.py')):
        with open(f) as g:
            ids.update(re.findall(r"@harness\('([A-Z]\d+)'", g.read()))
    return ids


def main():
    have = covered()
    known = {p['id'] for p in P}
    assert not have - known, have - known
    na = {x['property'] for x in NA}
    assert not known - have - na, known - have - na
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            q = {k: v for k, v in p.items() if k != 'note'}
            f.write(json.dumps(q) + '\n')
    checks = []
    for p in sorted(P, key=lambda p: p['id']):
        if p['id'] in na:
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': 'bin/check %s --tier quick' % p['id'],
            'thorough_cmd': 'bin/check %s --tier thorough' % p['id'],
            'technique': 'symbolic execution of the Python source with z3 '
                         '(path-complete within bounds), counterexamples '
                         'replayed natively',
            'level': 'model_checking',
            'level_note': (p['note'] + ' ' if p['note'] else '') +
            LEVEL_NOTE,
            'evidence_file': 'evidence/%s.json' % p['id']})
    m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks,
         'not_applicable': NA,
         'notes': 'No hooks in /repo: the checks load /repo\'s sources '
                  'through an instrumenting importer.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
