------------------------------- MODULE Broken -------------------------------
EXTENDS Naturals, Sequences, Json, IOUtils
(* Malformed elements that are self-contained: the delimiters, quotes and   *)
(* tags they open are closed again, only what stands between is wrong.      *)
Written == <<
  "{{ }}", "{{ a| }}", "{{ a. }}", "{{ (a }}", "{{ [a }}", "{{ {a: }}", "{{ {a:1 }}", "{{ a[ }}", "{{ f(a }}", "{{ a b }}", "{{ a ? }}",
  "{{ a ? b : }}", "{{ ) }}", "{{ | }}", "{{ = }}", "{{ a = }}", "{{ % }}", "{{ (a, b) }}", "{{ {a b} }}", "{% %}", "{% foobar %}",
  "{% foobar a b %}", "{% set = 1 %}", "{% set a = %}", "{% if %}a{% endif %}", "{% if a b %}c{% endif %}",
  "{% if a %}b{% elseif %}c{% endif %}", "{% if a %}b{% else x %}c{% endif %}", "{% if a %}b{% endif x %}", "{% block %}a{% endblock %}",
  "{% block 1 %}a{% endblock %}", "{% block a b c %}", "{% block x %}a{% endblock y %}", "{% block x %}a{% endblock 1 %}",
  "{% for %}a{% endfor %}", "{% for a %}b{% endfor %}", "{% for a in %}b{% endfor %}", "{% for a, in b %}c{% endfor %}",
  "{% for a in b %}c{% else d %}e{% endfor %}", "{% include %}", "{% include 'a' with %}", "{% include 'a' foo %}", "{% extends %}",
  "{% use %}", "{% use a %}", "{% from 'a' %}", "{% from 'a' import %}", "{% import 'a' %}", "{% import 'a' as %}",
  "{% embed %}{% endembed %}", "{% apply %}a{% endapply %}", "{% autoescape x %}a{% endautoescape %}", "{% deprecated %}",
  "{% deprecated a %}", "{% do %}", "{% flush a %}", "{% sandbox a %}b{% endsandbox %}", "{% verbatim a %}b{% endverbatim %}",
  "{% macro %}a{% endmacro %}", "{% macro a %}b{% endmacro %}", "{% macro a( %}b{% endmacro %}", "{% with %}a{% endwith x %}",
  "{% cache %}a{% endcache %}", "{% cache a ttl %}b{% endcache %}", "{% cache a ttl( %}b{% endcache %}", "{% trans a %}b{% endtrans %}",
  "{% component %}{% endcomponent %}", "{% component A with %}{% endcomponent %}", "{% component A with { %}{% endcomponent %}",
  "{% props = %}", "{% sw_extends %}", "{% sw_extends a %}", "{% sw_icon %}", "{% sw_icon 'a' style %}", "{% sw_thumbnails %}",
  "{% sw_include %}", "{% sw_silent_feature_call %}a{% endsw_silent_feature_call %}", "{% sw_embed %}{% sw_end_embed %}",
  "{% sw_use 'a' with %}", "<div class=></div>", "<div =foo></div>", "<div {% if a %}b></div>", "<div {% if %}a{% endif %}></div>",
  "<br class=>", "<!DOCTYPE>", "<p {{ }}></p>", "<p class=\"{{ }}\"></p>", "<p class=\"{% if %}a{% endif %}\"></p>", "<p ,></p>",
  "{# ludtwig-ignore ) #}", "{% block a %}{{ }}{% endblock %}", "<div>{{ }}</div>",
  \* an html element that is not closed ends with the Twig element around it
  "{% block a %}<p>{% endblock %}", "{% if a %}<p>{% endif %}", "{% if a %}<p>b{% elseif c %}d{% endif %}", "{% if a %}<p class='b'>{% else %}c{% endif %}",
  "{% if a %}b{% else %}<p>{% endif %}", "{% for a in b %}<p>{% endfor %}", "{% for a in b %}<p>{% else %}{% endfor %}",
  "{% set a %}<p>{% endset %}", "{% embed 'a' %}<p>{% endembed %}", "{% sw_embed 'a' %}<p>{% sw_end_embed %}", "{% apply upper %}<p>{% endapply %}",
  "{% autoescape %}<p>{% endautoescape %}", "{% sandbox %}<p>{% endsandbox %}", "{% verbatim %}<p>{% endverbatim %}", "{% macro a() %}<p>{% endmacro %}",
  "{% with %}<p>{% endwith %}", "{% cache 'a' %}<p>{% endcache %}", "{% component A %}<p>{% endcomponent %}", "{% trans %}<p>{% endtrans %}",
  "{% sw_silent_feature_call 'a' %}<p>{% endsw_silent_feature_call %}", "{% if a %}<div><p></div>{% endif %}", "{% if a %}<script>b{% endif %}",
  "{% if a %}<div><span>{{ b }}<p>{% endif %}", "{% block a %}<script>{{ b }}{% endblock %}",
  \* commas, elements of lists, operands, characters without meaning
  "{{ f(a b) }}", "{{ a|slice(1 2) }}", "{{ a|slice(b=1 c=2) }}", "{{ a.b(1 2) }}", "{{ [a b] }}", "{{ [1 'a'] }}", "{{ {a: 1 b: 2} }}", "{{ {'a': 1 'b': 2} }}",
  "{{ a is divisible by(1 2) }}", "{{ f(, a) }}", "{{ [, a] }}", "{{ f(a,, b) }}", "{{ a|f(,) }}", "{{ a..b.. }}", "{{ a ** }}", "{{ not }}", "{{ a is }}",
  "{{ a is not }}", "{{ a ?? }}", "{{ a b and c }}", "{{ a => }}", "{{ (a, b) => }}", "{{ a[1:2 }}", "{{ a['b' }}", "{{ f(a=) }}", "{{ {(a: 1} }}", "{{ {(a) 1} }}",
  "{{ {: 1} }}", "{{ \"#{ }\" }}", "{{ \"#{ a b }\" }}", "{{ a ? : b : c }}", "{% macro m(a b) %}c{% endmacro %}", "{% macro m(a=) %}c{% endmacro %}",
  "{% from 'a' import b c %}", "{% from 'a' import b as %}", "{% set a b = 1, 2 %}", "{% for a b in c %}d{% endfor %}", "{% for a, b, c in d %}e{% endfor %}",
  "{% use 'a' with b as %}", "{% use 'a' with b c %}", "{% include 'a' ignore %}", "{% with a only b %}c{% endwith %}", "{% embed 'a' with %}b{% endembed %}",
  "{% if a %}b{% else %}c{% else %}d{% endif %}", "{% if a %}b{% else %}c{% elseif d %}e{% endif %}", "{% for a in b %}c{% else %}d{% else %}e{% endfor %}",
  "<div 'a'></div>", "{% props a b %}", "{% types {a: } %}", "{% apply a| %}b{% endapply %}", "{% apply |a %}b{% endapply %}",
  "{% autoescape 'html' x %}a{% endautoescape %}", "{% cache 'a' tags() %}b{% endcache %}", "{% deprecated 'a' b %}", "{% trans with %}a{% endtrans %}",
  "{% trans into %}a{% endtrans %}", "{% form_theme %}", "{% form_theme a %}", "{% form_theme a with %}", "{% stopwatch %}a{% endstopwatch %}", "{% block a b| %}",
  "{% include 'a' with b only c %}", "{% extends a b %}", "{% import 'a' as b c %}", "{% do a b %}", "{% sw_include 'a' with %}", "{% sw_extends {template: } %}",
  "{% sw_icon 'a' style { %}", "{% sw_thumbnails 'a' with %}", "{% sw_use 'a' with b as %}", "{% sw_import 'a' %}", "{% sw_from 'a' import %}",
  "{% component A only x %}{% endcomponent %}", "<twig:A b=></twig:A>", "<div a=\"{{ b c }}\"></div>", "<!-- ludtwig-ignore ) -->", "{{ a <=> }}", "{{ a - }}",
  "{{ - }}", "{{ ... }}", "{{ a starts with }}", "{{ a not in }}", "{{ a matches }}", "{{ € }}", "{{ a € }}", "{{ [a, €] }}", "{{ {a: 1 €} }}", "{{ f(a €) }}",
  "{{ f(€ a) }}", "{{ a|f(€) }}", "{{ a€.b }}", "{% set a = 1 € %}", "{% from 'a' import b € %}", "{% use 'a' with b € %}",
  "{% apply a € %}b{% endapply %}", "{% apply a(€) %}b{% endapply %}", "{% macro m(a €) %}b{% endmacro %}", "{% props a € %}", "{{ (a, € b) => a }}",
  "{% block a € %}b{% endblock %}", "{% if a € %}b{% endif %}", "{{ \"€ #{€}\" }}", "{% component A € %}{% endcomponent %}", "{% cache 'a' € %}b{% endcache %}",
  "{{ a ? € : b }}", "{% foo € %}", "{% sw_icon € 'a' %}", "{% trans € %}{% endtrans %}", "{% include € 'a' %}", "{{ a[€] }}", "{{ a.€b }}", "{% do € %}",
  "{{ a and € }}", "{{ {(€): 1} }}",
  \* document types, tags and attributes
  "<!>", "<!foo>", "<!DOCTYPE html x>", "<!DOCTYPE 1>", "<div a==b></div>", "<div a=b=c></div>", "<br a= >", "<br/ >", "<br {{ }}>",
  "<div a={% if b %}c{% endif %}></div>", "<div></div x>", "<div></div a='b'>", "<twig:></twig:>", "<div !></div>", "<div a;b></div>", "<div (a)></div>",
  "<div [a]='b'></div>", "<div {a}></div>", "<div {{ a b }}='c'></div>", "<div a='{{ }}'></div>", "<div a={{ }}></div>", "<div {% foo %}></div>",
  "<div a='{% foo %}'></div>", "<div {% block %}{% endblock %}></div>", "<div a=\"{% block %}{% endblock %}\"></div>", "<img {% for %}{% endfor %}/>",
  "<script>{{ }}</script>", "<script>{% if %}a{% endif %}</script>", "<style>{% foo %}</style>", "<textarea>{{ a. }}</textarea>", "<pre>{{ a b }}</pre>" >>
(* malformed elements that may change how their surroundings are read     *)
Strays == <<
  "{{ \"#{ a\" }}", "{% else %}", "{% endif %}", "{% endblock %}", "{% elseif a %}", "</div>", "</p>", "{% endfor %}", "<div a='b></div>", "{% set a€ = 1 %}" >>

(* or those in a file: constructs of Grammar with a token left out          *)
Brokens == IF "GEN_BROKEN" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.GEN_BROKEN) ELSE Written

RECURSIVE Has(_, _, _)
Has(s, x, k) == IF k > Len(s) THEN FALSE ELSE IF SubSeq(s, k, k) = x THEN TRUE ELSE Has(s, x, k + 1)
All == [n \in 1..Len(Brokens) |-> n]
InTag == SelectSeq(All, LAMBDA n : ~Has(Brokens[n], "<", 1))
InValue == SelectSeq(InTag, LAMBDA n : ~Has(Brokens[n], "\"", 1))
(* those that may stand at a place: among elements, in a start tag, in a    *)
(* value between double quotes                                              *)
Fitting(place) == IF place = "el" THEN All ELSE IF place = "at" THEN InTag ELSE InValue

Dash(s) == s \in {"%}", "}}", "#}"}
Open(s) == s \in {"{%", "{{", "{#"}
RECURSIVE Trimmed(_, _, _)
(* the same element with whitespace control characters c at its delimiters  *)
Trimmed(s, c, k) ==
  IF Len(s) < 2 THEN s
  ELSE LET h == SubSeq(s, 1, 2) t == SubSeq(s, 3, Len(s)) IN
       IF Open(h) /\ k # 1 THEN h \o c \o Trimmed(t, c, k)
       ELSE IF Dash(h) /\ k # 2 THEN c \o h \o Trimmed(t, c, k)
       ELSE SubSeq(s, 1, 1) \o Trimmed(SubSeq(s, 2, Len(s)), c, k)
(* 7 spellings of element n                                                 *)
Spelled(n, v) == IF v = 0 \/ "GEN_BROKEN" \in DOMAIN IOEnv THEN Brokens[n] ELSE Trimmed(Brokens[n], IF v % 2 = 0 THEN "-" ELSE "~", v \div 2 % 3)
=============================================================================
