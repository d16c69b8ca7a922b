"""Statements with which assembling fails, for C18 and C20."""

# On their own, anywhere outside of macros.
MALFORMED = r'''.byte 1 `
 .byte 1 ~ 2
 .byte ?
 .byte [1]
 .byte {
 .byte \
 .byte !
 .byte 'a'
 .byte €
 .text 5 'abc'
 .string "abc"
 .text 3
 .byte
 .byte 1,
 .byte ,1
 .byte 1 2
 .word
 .word 1,,2
 .org
 .org 5 6
 .cnop 5
 .cnop 0
 .cnop 0,
 .cnop lab, 5
 .include
 .include bogus "x"
 .include 5
 .include icon
 .bogus 5
 .byte )
 .byte (1
 .byte 1)
 .byte 1 +
 .byte * 2
 add
 add #
 add #1, #2
 add 5, 6
 mov #1
 mov #1 5
 ld 5 5
 ld @r4
 ld @R9
 ld @
 inc #5
 nop 1
 foo_nothing
 foo_nothing 1, 2
 jmp
 br #5
 bne #1
 push
 lbl2: .byte 1
 = 5
 5
 "str"
 ,
 :
 %end
 %foo:
 %macro
 ld %a
 .byte 0x
 .byte $
 .byte %12
 .byte <
 .byte #5
 .byte @r1
 add ##5
 nop nop
 lab lab: nop
 add.b #5
 ldf, 5
 mov #1, @r0, 5
 .text 5 5
 .text "a" "b"
 add #3, @r1
 ldc 5
 ret 5
 bp 5, 3
 set1 5
 xch #4
 st #5
 .include sprite "x.png" type="q"
 .include sprite "x.png" header="q"
 .include icon "x.png" speed=
 br lab%
 mul 1
 .org ,
 .cnop 0 4
 zz = = 5
 zz equ
 .word "abc"'''.split('\n')

UNKNOWN = '''.byte nowhere
 ld nowhere
 .word 1, nowhere
 .word 1, 2 + 3 * (4 - nowhere)
 .byte <nowhere
 .byte >nowhere, 1
 .org nowhere
 zz = nowhere
 zz EQU nowhere + 1
 .text nowhere "abc"
 jmp nowhere
 br nowhere
 jmpf nowhere
 callf Nowhere
 brf NOWHERE
 bp acc_unknown, 3, $5
 bp 5, nowhere, $5
 bn 5, 1, nowhere
 jmp .nowhere
 br .nowhere
 mov #nowhere, 5
 mov #5, nowhere
 mov #nowhere, @r1
 be #nowhere, $10
 dbnz nowhere, $10
 .include icon "x.png" speed=nowhere
 add #nowhere
 set1 nowhere, 1'''.split('\n')

RANGE = '''.byte 256
 .byte -129
 .byte 1, 2, 256
 .byte 1, -129, 2
 .word 65536
 .word -32769
 .word 0, 65536
 .org 65536
 .org -1
 add #256
 add #-1
 mov #300, 5
 mov #3, 512
 ld $200
 ld -1
 st 512
 set1 5, 8
 set1 5, -1
 clr1 512, 1
 bp 5, 9, $3
 jmpf 70000
 callf -1
 br $fff0
 bz $fff0
 brf 70000
 .byte 1/0
 .byte 1/(5-5)
 .byte 2147483647+1
 .byte -2147483647-2
 .byte 65536*65536
 .text 2 "abc"
 .string 2 "abc"
 .text -1 "abc"
 mov #1, @r0+
 .include icon "x.png" speed=70000
 ld 511 + 1
 ld (1 - 2) * 3
 add #<1 + 255'''.split('\n')


def clean(lines):
    return [(' ' + line) if not line.startswith(' ') else line for line in lines]


# More operators or parentheses than an expression may have.
COMPLEX = [' .byte 1' + ' + 1' * 251, ' ld ' + '(' * 251 + '5' + ')' * 251, ' .word 1, ' + '-' * 251 + '1', ' zz = 2' + '*1' * 300,
           ' add #' + '<' * 260 + '5', ' .org ' + '(' * 300 + '5' + ')' * 300, ' jmp ' + '1 - ' * 1000 + '1', ' .byte ' + '(' * 2000]
MALFORMED += COMPLEX
MALFORMED += [' .include icon "x.png" eyecatch = 5', ' .include icon "x.png" eyecatch = nowhere', ' .include icon "x.png" speed 5',
              ' .include icon "x.png" eyecatch', ' .include sprite "x.png" type', ' .include sprite "x.png" header', ' .include bytes',
              ' .include cpp', ' .include cpp 5', ' .include bytes x', ' .include sprite type="simple"']

MALFORMED, UNKNOWN, RANGE = clean(MALFORMED), clean(UNKNOWN), clean(RANGE)
# The misplaced token, or one before the fault, goes over several lines.
MULTILINE = [' .org "two\nlines"', ' .cnop 0, "a\n\nb"', ' .word "a\nb"', ' ld "\nx"', ' add #"a\n b"', ' .byte "a" "b\nc"', ' "text\n\n "',
             ' .text "five\n  chars" "x"', ' .include sprite "x.png" type="ma\nsked"', ' .byte "a\tb\n;c" + 1',
             ' .include icon "x.png" "\n\ny"', ' .text 3 "ab\ncd"', ' .string 2 "a\n\n"', ' mov "x\ny", 5', ' zz = "a\nb"', ' .byte 1 + "b\nc"']
ALL = MALFORMED + UNKNOWN + RANGE + MULTILINE

# In macro bodies: instructions that fail when the macro is called.
IN_BODY = ''' add #256
 add #-1
 ld $200
 ld nowhere
 jmp nowhere
 br $fff0
 bz nowhere
 bogus_name
 bogus_name %a
 add 5, 6
 mov #1
 add #1, #2
 nop 1
 set1 5, 8
 set1 5, nowhere
 mov #nowhere, 5
 mov #1 / 0, 5
 ld 1 / (2 - 2)
 ld 2147483647 + 1
 add #<nowhere
 add #(1 + nowhere) * 2
 add #5 + %a * nowhere
 ld nowhere + %a
 ld %a + 5 / 0
 br .nowhere
 callf 65536
 mov #256, @r1
 bne #300, $5
 bp 5, 8, $5
 nop %a, %a, %a
 jmp other_private%
 ld %b
 add #%b'''.split('\n')

# Wrong from the definition on.
IN_DEFINITION = ''' ld ?
 .byte 1
 add #1 +
 add #(1
 ld ,
 .org 5
 ld @r4, 5
 ld unknown_param_%b
 5
 "abc"
 ld €
 add #$
 x = 5
 %macro inner
 ld = 5
 nop \\'''.split('\n')

# A body's instruction, and arguments with which it fails.
BY_ARGUMENT = [(' add #%a', '256'), (' add #%a', 'nowhere'), (' ld %a', '512'), (' ld %a', 'nowhere'), (' jmp %a', 'nowhere'),
               (' br %a', '$fff0'), (' set1 5, %a', '8'), (' mov #%a, 5', '-1'), (' mov #5, %a', '$200'), (' add #%a', '1/0'),
               (' ld %a', '2147483647 + 1'), (' callf %a', '65536'), (' bp %a, 1, $5', '513'), (' add #%a', '3 * (nowhere + 2)'),
               (' add %a', '#256'), (' add %a', '#nowhere'), (' ld %a', '.nowhere'),
               (' ld ' + '+'.join(['%a'] * 150), '1+1'), (' add #' + '-' * 200 + '%a', '1' + '+1' * 100)]

# (first definition, second definition)
CLASHES = [('dup_1: nop', 'dup_1: nop'), ('dup_1:', 'DUP_1:'), ('dup_1 = 5', 'dup_1 = 5'), ('dup_1 equ 5', 'Dup_1 = 6'),
           ('dup_1:', 'dup_1 = 6'), ('dup_1 = 6', 'dup_1:'), ('dup_1 :', 'dup_1:'), ('dup_1 = 4 ; x', 'dup_1 EQU 7'),
           ('%macro dup_1 %a\n%end', '%macro Dup_1 %b\n nop\n%end'), ('%macro dup_1\n%end', '%macro dup_1\n%end')]

LOCAL_CLASHES = [('.dup_1: nop', '.dup_1: nop'), ('.dup_1:', '.DUP_1:'), ('.dup_1', '.dup_1:nop')]
