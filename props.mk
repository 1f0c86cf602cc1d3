$(eval $(call RUNNER,P01,))
$(eval $(call RUNNER,P02,))
$(eval $(call RUNNER,P03,))
$(eval $(call RUNNER,P04,$(ARR_OBJ) $(TO_PMR_OBJ)))
$(eval $(call RUNNER,P05,$(ARR_OBJ) $(TO_STD_OBJ) $(TO_PMR_OBJ) $(TO_PPMR_OBJ)))
$(eval $(call RUNNER,P06,))
$(eval $(call RUNNER,P07,))
$(eval $(call RUNNER,P08,))
$(eval $(call RUNNER,P09,$(ARR_OBJ)))
$(eval $(call RUNNER,P10,$(ARR_OBJ)))
$(eval $(call RUNNER,P11,))
$(eval $(call RUNNER,P12,$(TO_STD_OBJ) $(TO_PMR_OBJ) $(TO_PPMR_OBJ)))
$(eval $(call RUNNER,P13,$(TO_STD_OBJ) $(TO_PMR_OBJ) $(TO_PPMR_OBJ)))
$(eval $(call RUNNER,P14,))
$(eval $(call RUNNER,P15,))
$(eval $(call RUNNER,P16,))
HIST_OBJ := $(B)/props/P14_a1.o $(B)/props/P14_a2.o $(B)/props/P14_a3.o $(B)/props/P14_a7.o $(B)/props/P15_a1.o $(B)/props/P15_a2.o $(B)/props/P15_a3.o $(B)/props/P15_a7.o $(B)/props/P16_a1.o $(B)/props/P16_a2.o $(B)/props/P16_a3.o $(B)/props/P16_a7.o
$(eval $(call RUNNER,P17,$(HIST_OBJ) $(TO_PMR_OBJ) $(TO_PPMR_OBJ)))
$(eval $(call RUNNER,P18,))
REFL_OBJ := $(patsubst harness/%.cpp,$(B)/harness/%.o,$(wildcard harness/refl_*.cpp)) $(TO_STD_OBJ) $(TO_PMR_OBJ) $(TO_PPMR_OBJ)
$(eval $(call RUNNER,P19,$(REFL_OBJ)))
$(eval $(call RUNNER,P20,$(REFL_OBJ)))
$(eval $(call RUNNER,P21,$(REFL_OBJ)))
$(eval $(call RUNNER,P22,$(REFL_OBJ)))
$(eval $(call RUNNER,P23,$(REFL_OBJ)))
$(eval $(call RUNNER,P24,$(REFL_OBJ)))
$(eval $(call RUNNER,P25,))
$(eval $(call RUNNER,P26,))
$(eval $(call RUNNER,P27,$(TO_STD_OBJ) $(TO_PMR_OBJ) $(TO_PPMR_OBJ)))
# P28 runs under ThreadSanitizer: all of it is built apart
ifeq ($(TSAN),)
$(B)/P28: FORCE
	$(MAKE) --no-print-directory REPO=$(REPO) B=$(B)/tsan TSAN=1 SAN=-fsanitize=thread $(B)/tsan/P28
	cp -u $(B)/tsan/P28 $@
FORCE:
.PHONY: FORCE
else
$(eval $(call RUNNER,P28,$(TO_STD_OBJ) $(TO_PMR_OBJ)))
endif
$(eval $(call RUNNER,P29,))
$(eval $(call RUNNER,P31,$(TO_STD_OBJ) $(TO_PMR_OBJ) $(TO_PPMR_OBJ)))
# P30: the stream checks against the library's code for 32-bit targets
RT32_OBJ := $(patsubst $(RT)/%.cpp,$(B)/rt32/%.o,$(RT_SRC))
$(B)/rt32/%.o: $(RT)/%.cpp harness/arch32/zserio/RuntimeArch.h
	@mkdir -p $(@D)
	$(CXX) $(CXXFLAGS) -Iharness/arch32 $(INC) $(DEP) -c $< -o $@
P30_PROPS := $(B)/props/P01_streams.o $(B)/props/P02_wire.o $(B)/props/P04_hostile.o $(B)/props/P10_packed.o $(B)/props/P11_offsets.o $(B)/props/P30_arch32.o
$(B)/P30: $(B)/harness/main_P30.o $(P30_PROPS) $(CORE) $(RT32_OBJ) $(ARR_OBJ) $(TO_PMR_OBJ)
	$(CXX) $(CXXFLAGS) $^ -lsqlite3 -o $@
$(B)/harness/main_P30.o: harness/main.cpp harness/pbt.h
	@mkdir -p $(B)/harness
	$(CXX) $(CXXFLAGS) $(INC) -DPBT_PROPERTY='"P30"' -DPBT_SCALE=0.35 -c $< -o $@
