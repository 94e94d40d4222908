`timescale 1ns/1ps
// The simulation the monitored scenarios run in: time, a clock-less top, some storage for backdoors.
module vp_top(input wire clk);
  reg [31:0] r32 = 0;
  reg [63:0] r64 = 0;
  reg [7:0]  r8 = 0;
  reg [15:0] r16 = 0;
  reg [31:0] mem32 [0:63];
  reg [7:0]  mem8 [0:63];
endmodule
